package kiwi

import (
	"errors"
	"net"
)

// vConn delivers the messages and then fails.
type vConn struct {
	messages [][]byte
	types    []int
	closed   bool
}

func (c *vConn) RemoteAddr() net.Addr { return nil }
func (c *vConn) Close() error {
	c.closed = true
	return nil
}
func (c *vConn) WriteMessage(messageType int, data []byte) error { return nil }
func (c *vConn) ReadMessage() (int, []byte, error) {
	if len(c.messages) == 0 {
		return 0, nil, errors.New("no more messages")
	}
	message, kind := c.messages[0], c.types[0]
	c.messages, c.types = c.messages[1:], c.types[1:]
	return kind, message, nil
}

type vHandler struct {
	rates      []int
	blockRates []int
	blocks     [][]float32
}

func (h *vHandler) Connected(sampleRate int) { h.rates = append(h.rates, sampleRate) }
func (h *vHandler) IQData(sampleRate int, data []float32) {
	h.blockRates = append(h.blockRates, sampleRate)
	h.blocks = append(h.blocks, append([]float32{}, data...))
}

func vResolve(network, address string) (*net.TCPAddr, error) {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 8073}, nil
}

func vClient(h *vHandler) *Client {
	client, err := newClient("127.0.0.1:8073", false, h)
	vAssert(err == nil, "the client is created")
	return client
}
