package telnet

import (
	"strings"
	"time"
)

//verif:include telnet.go
//verif:stub net.ResolveTCPAddr = vResolve
//verif:stub net.ListenTCP = vListen
//verif:stub (*net.TCPListener).SetDeadline = vSetDeadline
//verif:stub (*net.TCPListener).AcceptTCP = vAccept
//verif:stub (*net.TCPListener).Close = vListenerClose
//verif:stub (*net.TCPConn).SetKeepAlive = vKeepAlive
//verif:stub (*net.TCPConn).SetKeepAlivePeriod = vKeepAlivePeriod
//verif:stub (*net.conn).RemoteAddr = vConnAddr
//verif:stub (*net.conn).Read = vConnRead
//verif:stub (*net.conn).Write = vConnWrite
//verif:stub (*net.conn).Close = vConnClose
//verif:stub (*net.conn).SetWriteDeadline = vConnWriteDeadline
//verif:bound one connection that fails at any moment (write error, end of input, closed by the server, once or twice at the same time) while up to 3 messages are written and input arrives: all interleavings with up to 2 (quick) / 3 (thorough) preemptions
//verif:bound a server with two clients, one of which takes no more data from any of 4 spots on; a server that is stopped by two callers while another one announces two spots and a client connects or logs in: all interleavings with up to 0 (quick) / 1 (thorough) preemptions and, with nothing but the stops, 3
//verif:assume the clients, the listener and the clock are stand-ins for package net: a write to a closed connection or behind its deadline fails, a client that takes no data never lets a write return otherwise

//verif:harness vHarness_connection conc=1 preempt=2/3 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=2000000 budget=150/400
func vHarness_connection() {
	p := vNewPeer()
	vQuiet(true)
	c := NewConnection(p, "hi\n")
	vSettle()
	vQuiet(false)
	done := make(chan bool, 4)
	waits, writes := 1, 3
	switch vChoose("failure", 5) {
	case 0:
		go p.fail()
	case 1:
		close(p.input)
	case 2:
		p.fail()
		p.input <- []byte("a\n")
	case 3:
		waits++
		go func() {
			c.Close()
			done <- true
		}()
	case 4:
		writes = 1
		for i := 0; i < 2; i++ {
			waits++
			go func() {
				c.Close()
				done <- true
			}()
		}
	}
	go func() {
		for i := 0; i < writes; i++ {
			c.Write([]byte("m\n"))
		}
		done <- true
	}()
	for i := 0; i < waits; i++ {
		<-done
	}
	c.Close()
	c.Close()
	_, err := c.Write([]byte("late\n"))
	vAssert(err != nil, "writing to a closed connection fails")
	vAssert(p.closed(), "the connection is closed")
	vSettle()
	vAssert(vLiveGoroutines() == 0, "nothing is left behind")
	vReach("end")
}

//verif:harness vHarness_reader conc=1 preempt=2/3 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=2000000 budget=150/400
func vHarness_reader() {
	// input arrives while the connection fails
	p := vNewPeer()
	vQuiet(true)
	c := NewConnection(p, "hi\n")
	vSettle()
	vQuiet(false)
	go p.fail()
	for i := 0; i < 3; i++ {
		p.input <- []byte("a\n")
	}
	c.Write([]byte("m\n"))
	_ = c.String()
	c.Close()
	vSettle()
	vAssert(p.closed(), "the connection is closed")
	vAssert(vLiveGoroutines() == 0, "nothing is left behind")
	vReach("end")
}

//verif:harness vHarness_stuck conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=1 steps=2000000 budget=150/400
func vHarness_stuck() {
	vQuiet(true)
	vNetwork()
	s, _ := NewServer(":7373", "call", "1")
	good, stuck := vNewPeer(), vNewPeer()
	if vChoose("order", 2) == 0 {
		vIncoming <- good
		vIncoming <- stuck
	} else {
		vIncoming <- stuck
		vIncoming <- good
	}
	vSettle()
	at := time.Date(2024, 1, 2, 12, 34, 0, 0, time.UTC)
	from := vChoose("stuck from", 4)
	done := make(chan bool, 1)
	go func() {
		for i, call := range []string{"aa1a", "bb2b", "cc3c", "dd4d", "ee5e", "ff6f"} {
			if i == from {
				stuck.stick()
			}
			s.Spot(call, 7000000, "", at)
		}
		done <- true
	}()
	for i := 0; i < 8; i++ {
		vPass()
	}
	<-done
	vPass()
	for _, call := range []string{"aa1a", "bb2b", "cc3c", "dd4d", "ee5e", "ff6f"} {
		vAssert(strings.Count(good.text(), " "+call+" ") == 1, "the other clients get every spot")
	}
	go s.Stop()
	vPass()
	vAssert(good.closed() && stuck.closed(), "all connections are closed when the server stops")
	vReach("end")
}

//verif:harness vHarness_stop conc=1 preempt=0/1 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=2000000 budget=150/400
func vHarness_stop() {
	vQuiet(true)
	vNetwork()
	s, _ := NewServer(":7373", "call", "1")
	p := vNewPeer()
	vIncoming <- p
	vSettle()
	vQuiet(false)
	at := time.Date(2024, 1, 2, 12, 34, 0, 0, time.UTC)
	done := make(chan bool, 3)
	stops := 1
	switch vChoose("client", 3) {
	case 0:
		stops = 2
	case 1:
		p.input <- []byte("a\n")
	case 2:
		vIncoming <- vNewPeer()
	}
	vTicks <- true
	for i := 0; i < stops; i++ {
		go func() {
			s.Stop()
			done <- true
		}()
	}
	go func() {
		s.Spot("aa1a", 7000000, "", at)
		s.Spot("bb2b", 7000000, "", at)
		done <- true
	}()
	vSettle()
	vQuiet(true)
	vPass()
	vPass()
	for i := 0; i < stops+1; i++ {
		<-done
	}
	s.Spot("cc3c", 7000000, "", at)
	s.Spot("dd4d", 7000000, "", at)
	s.Stop()
	vAssert(p.closed(), "all connections are closed when the server stops")
	for _, q := range vPeers {
		vAssert(q.closed(), "all connections are closed when the server stops")
	}
	vAssert(vListenerClosed, "nobody can connect any more")
	vSettle()
	vAssert(vLiveGoroutines() == 0, "nothing is left behind")
	vReach("end")
}

//verif:harness vHarness_stops conc=1 preempt=3 mode=exact merge=0 mapFork=1 native=0 timers=0 budget=150/400
func vHarness_stops() {
	vQuiet(true)
	vNetwork()
	s, _ := NewServer(":7373", "call", "1")
	p := vNewPeer()
	vIncoming <- p
	vSettle()
	vQuiet(false)
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() {
			s.Stop()
			done <- true
		}()
	}
	vSettle()
	vTicks <- true
	<-done
	<-done
	vAssert(p.closed(), "all connections are closed when the server stops")
	vReach("end")
}
