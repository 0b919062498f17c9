package kiwi

import (
	"errors"
	"net"
	"sync"
)

//verif:include kiwi.go
//verif:stub net.ResolveTCPAddr = vResolve
//verif:stub (*github.com/ftl/sdrainer/kiwi.Client).connect = vConnect
//verif:bound one connection that fails while reading at any moment, while writing at any of the first 4 writes or not at all or sends any status message; up to two closing callers, one sending caller; all interleavings with up to 1 to 3 (quick) / 2 to 4 (thorough) preemptions
//verif:assume a read from a connection ends when the connection is closed, a write never takes forever

// vLossy is a connection that fails.
type vLossy struct {
	messages chan []byte
	failed   chan struct{}
	done     chan struct{}
	once     sync.Once
	mutex    sync.Mutex
	writes   int
	failAt   int
}

var vLink *vLossy

func vNewLink(failAt int) {
	vLink = &vLossy{messages: make(chan []byte, 4), failed: make(chan struct{}), done: make(chan struct{}), failAt: failAt}
}

func vConnect(c *Client) (clientConn, error) { return vLink, nil }

func (c *vLossy) RemoteAddr() net.Addr { return nil }
func (c *vLossy) Close() error {
	c.once.Do(func() { close(c.done) })
	return nil
}
func (c *vLossy) WriteMessage(messageType int, data []byte) error {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	select {
	case <-c.done:
		return errors.New("closed")
	default:
	}
	if c.writes == c.failAt {
		return errors.New("write failed")
	}
	c.writes++
	return nil
}
func (c *vLossy) ReadMessage() (int, []byte, error) {
	select {
	case message := <-c.messages:
		return 2, message, nil
	case <-c.failed:
		return 0, nil, errors.New("read failed")
	case <-c.done:
		return 0, nil, errors.New("closed")
	}
}

func vClosed(c *vLossy) bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}

// vOpen opens the client in one schedule, vHarness_open explores the others.
func vOpen() *Client {
	vQuiet(true)
	client, err := Open("127.0.0.1", "user", "password", 7020000, 10000, &vHandler{})
	vAssert(err == nil, "the client opens")
	vSettle()
	vQuiet(false)
	return client
}

//verif:harness vHarness_open conc=1 preempt=2/2 mode=exact merge=0 mapFork=1 native=0 timers=0 budget=150/400
func vHarness_open() {
	// the connection fails while it is set up
	vNewLink(vChoose("failingWrite", 5))
	reads := vChoose("reads fail", 2) == 1
	if reads {
		go close(vLink.failed)
	}
	client, err := Open("127.0.0.1", "user", "password", 7020000, 10000, &vHandler{})
	if err == nil {
		client.Close()
		client.Close()
	}
	vSettle()
	vAssert(vClosed(vLink), "the connection is closed")
	vAssert(vLiveGoroutines() == 0, "nothing is left behind")
	vReach("end")
}

//verif:harness vHarness_loss conc=1 preempt=1/2 mode=exact merge=0 mapFork=1 native=0 timers=0 budget=150/400
func vHarness_loss() {
	vNewLink(20)
	client := vOpen()
	done := make(chan bool, 3)
	loss := vChoose("loss", 5)
	switch loss {
	case 1:
		close(vLink.failed)
	case 2:
		vLink.mutex.Lock()
		vLink.failAt = vLink.writes
		vLink.mutex.Unlock()
	case 3:
		vLink.messages <- []byte("MSG badp=1")
	case 4:
		// first the write, then the read fails
		vLink.mutex.Lock()
		vLink.failAt = vLink.writes
		vLink.mutex.Unlock()
		close(vLink.failed)
	}
	go func() {
		client.setVFO(iqMode, -5000, 5000, 7030000)
		done <- true
	}()
	closers := 1
	if loss == 0 {
		closers = 2
	}
	for i := 0; i < closers; i++ {
		go func() {
			client.Close()
			done <- true
		}()
	}
	for i := 0; i < closers+1; i++ {
		<-done
	}
	client.Close()
	vAssert(client.setVFO(iqMode, -5000, 5000, 7050000) != nil, "a command after the loss is rejected")
	vSettle()
	vAssert(vClosed(vLink), "the connection is closed")
	vAssert(vLiveGoroutines() == 0, "nothing is left behind")
	vReach("end")
}

//verif:harness vHarness_send conc=1 preempt=3/4 mode=exact merge=0 mapFork=1 native=0 timers=0 budget=150/400
func vHarness_send() {
	// nobody closes the client, the connection is lost
	vNewLink(20)
	client := vOpen()
	switch vChoose("loss", 3) {
	case 0:
		go close(vLink.failed)
	case 1:
		vLink.mutex.Lock()
		vLink.failAt = vLink.writes
		vLink.mutex.Unlock()
	case 2:
		vLink.messages <- []byte("MSG too_busy=1")
	}
	for i := 0; i < 3; i++ {
		client.setVFO(iqMode, -5000, 5000, 7030000)
	}
	vSettle()
	vAssert(vClosed(vLink), "the connection is closed")
	vAssert(vLiveGoroutines() == 0, "nothing is left behind")
	vReach("end")
}
