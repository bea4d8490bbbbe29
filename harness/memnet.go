package harness

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// In-memory full-duplex network connection. It blocks only on sync.Cond and timers, so it is usable inside synctest bubbles.

var errReset = errors.New("memnet: connection reset by peer")
var errPipe = errors.New("memnet: broken pipe")

type pipeHalf struct {
	mu       sync.Mutex
	cond     *sync.Cond
	buf      []byte
	max      int // capacity; writers block beyond it (0 = unlimited)
	eof      bool
	rdead    error // reads fail with this (after the buffer is drained unless discard)
	wdead    error
	paused   bool
	total    int64 // bytes accepted from the writer
	cutAt    int64 // after this many bytes were accepted the direction breaks (-1 = never)
	cutErr   error
	rdl, wdl deadline
	chunk    func(avail int) int // how many bytes one Read may return
	nWrites  int64
	nReads   int64
	maxWrite int
}

// deadline of the reader or the writer of a half (mu of the half held).
type deadline struct {
	timer *time.Timer
	fired bool
	gen   int
}

func (h *pipeHalf) setDeadline(d *deadline, t time.Time) {
	h.mu.Lock()
	defer h.mu.Unlock()
	d.gen++
	gen := d.gen
	if d.timer != nil {
		d.timer.Stop()
		d.timer = nil
	}
	d.fired = false
	if t.IsZero() {
		return
	}
	left := time.Until(t)
	if left <= 0 {
		d.fired = true
		h.cond.Broadcast()
		return
	}
	d.timer = time.AfterFunc(left, func() {
		h.mu.Lock()
		if d.gen == gen {
			d.fired = true
			h.cond.Broadcast()
		}
		h.mu.Unlock()
	})
}

func newHalf() *pipeHalf {
	h := &pipeHalf{cutAt: -1}
	h.cond = sync.NewCond(&h.mu)
	return h
}

type MemConn struct {
	name    string
	in, out *pipeHalf
	local   net.Addr
	remote  net.Addr
	// hooks, called without locks held; set before use
	beforeWrite func(b []byte)
	beforeRead  func()
	readSize    func(n int)
	writeErr    func(b []byte) error // injected write failure
	closeOnce   sync.Once
	closed      atomic.Bool
	closeCount  atomic.Int32
	onClose     func()
	onData      func() // called when this end's Read is about to return data
	tapOn       bool
	tap         []byte // with tapOn: everything the outgoing direction accepted
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

// memPipe returns two connected ends.
func memPipe() (a, b *MemConn) {
	x, y := newHalf(), newHalf()
	a = &MemConn{name: "a", in: x, out: y, local: memAddr("client.example:4242"), remote: memAddr("server.example:61613")}
	b = &MemConn{name: "b", in: y, out: x, local: memAddr("server.example:61613"), remote: memAddr("client.example:4242")}
	return
}

func (c *MemConn) Read(p []byte) (int, error) {
	if c.beforeRead != nil {
		c.beforeRead()
	}
	if c.readSize != nil {
		c.readSize(len(p))
	}
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	h.nReads++
	for {
		if c.closed.Load() {
			return 0, net.ErrClosed
		}
		if h.rdl.fired {
			return 0, os.ErrDeadlineExceeded
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(h.buf) > 0 && !h.paused {
			n := len(h.buf)
			if n > len(p) {
				n = len(p)
			}
			if h.chunk != nil {
				if k := h.chunk(n); k < n {
					n = k
				}
				if n < 1 {
					n = 1
				}
			}
			if c.onData != nil {
				c.onData()
			}
			copy(p, h.buf[:n])
			h.buf = h.buf[n:]
			if len(h.buf) == 0 {
				h.buf = nil
			}
			h.cond.Broadcast()
			return n, nil
		}
		if !h.paused && len(h.buf) == 0 {
			if h.rdead != nil {
				return 0, h.rdead
			}
			if h.eof {
				return 0, io.EOF
			}
		}
		h.cond.Wait()
	}
}

func (c *MemConn) Write(p []byte) (int, error) {
	if c.beforeWrite != nil {
		c.beforeWrite(p)
	}
	if c.writeErr != nil {
		if err := c.writeErr(p); err != nil {
			return 0, err
		}
	}
	h := c.out
	h.mu.Lock()
	defer h.mu.Unlock()
	h.nWrites++
	if len(p) > h.maxWrite {
		h.maxWrite = len(p)
	}
	written := 0
	for {
		if c.closed.Load() {
			return written, net.ErrClosed
		}
		if h.wdead != nil {
			return written, h.wdead
		}
		if h.wdl.fired {
			return written, os.ErrDeadlineExceeded
		}
		if written == len(p) {
			return written, nil
		}
		room := len(p) - written
		if h.max > 0 {
			if r := h.max - len(h.buf); r < room {
				room = r
			}
		}
		if h.cutAt >= 0 && int64(room) > h.cutAt-h.total {
			room = int(h.cutAt - h.total)
			if room <= 0 {
				h.break_(h.cutErr)
				continue
			}
		}
		if room > 0 {
			h.buf = append(h.buf, p[written:written+room]...)
			h.total += int64(room)
			if c.tapOn {
				c.tap = append(c.tap, p[written:written+room]...)
			}
			written += room
			h.cond.Broadcast()
			continue
		}
		h.cond.Wait()
	}
}

// break_ makes this direction fail for both sides (h.mu held).
func (h *pipeHalf) break_(err error) {
	if err == nil || err == io.EOF {
		h.eof = true
		h.wdead = errPipe
	} else {
		h.rdead = err
		h.wdead = err
	}
	h.cond.Broadcast()
}

func (c *MemConn) Close() error {
	c.closeCount.Add(1)
	c.closeOnce.Do(func() {
		c.closed.Store(true)
		c.out.mu.Lock()
		c.out.eof = true
		c.out.cond.Broadcast()
		c.out.mu.Unlock()
		c.in.mu.Lock()
		if c.in.wdead == nil {
			c.in.wdead = errPipe
		}
		c.in.buf = nil
		c.in.cond.Broadcast()
		c.in.mu.Unlock()
		if c.onClose != nil {
			c.onClose()
		}
	})
	return nil
}

// CloseWrite ends only the outgoing direction.
func (c *MemConn) CloseWrite() {
	c.out.mu.Lock()
	c.out.eof = true
	c.out.wdead = errPipe
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

// Reset breaks both directions at once, discarding buffered data.
func (c *MemConn) Reset() {
	for _, h := range []*pipeHalf{c.in, c.out} {
		h.mu.Lock()
		h.buf = nil
		h.paused = false
		h.rdead = errReset
		h.wdead = errReset
		h.cond.Broadcast()
		h.mu.Unlock()
	}
}

// Pause stops (or resumes) this end's reads from returning data.
func (c *MemConn) Pause(p bool) {
	c.in.mu.Lock()
	c.in.paused = p
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
}

// SetInCap bounds how many unread bytes the peer may have in flight to this end.
func (c *MemConn) SetInCap(n int) {
	c.in.mu.Lock()
	c.in.max = n
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
}

// CutIncoming breaks the direction peer->c after n more bytes.
func (c *MemConn) CutIncoming(n int, err error) {
	c.in.mu.Lock()
	c.in.cutAt = c.in.total + int64(n)
	c.in.cutErr = err
	c.in.mu.Unlock()
}

// CutOutgoing breaks the direction c->peer after n more bytes.
func (c *MemConn) CutOutgoing(n int, err error) {
	c.out.mu.Lock()
	c.out.cutAt = c.out.total + int64(n)
	c.out.cutErr = err
	c.out.mu.Unlock()
}

// Tapped returns what was accepted from this end so far.
func (c *MemConn) Tapped() []byte {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return append([]byte{}, c.tap...)
}

// Fragment makes this end's reads return small pieces.
func (c *MemConn) Fragment(f func(avail int) int) {
	c.in.mu.Lock()
	c.in.chunk = f
	c.in.mu.Unlock()
}

func (c *MemConn) BytesReceivedByPeerSide() int64 {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return c.out.total
}

func (c *MemConn) Unread() int { c.in.mu.Lock(); defer c.in.mu.Unlock(); return len(c.in.buf) }

func (c *MemConn) LocalAddr() net.Addr  { return c.local }
func (c *MemConn) RemoteAddr() net.Addr { return c.remote }

func (c *MemConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *MemConn) SetReadDeadline(t time.Time) error {
	c.in.setDeadline(&c.in.rdl, t)
	return nil
}

func (c *MemConn) SetWriteDeadline(t time.Time) error {
	c.out.setDeadline(&c.out.wdl, t)
	return nil
}

// memListener hands out server ends.
type memListener struct {
	ch     chan net.Conn
	done   chan struct{}
	once   sync.Once
	accErr chan error
	log    *accLog // records the calls, if set
}

func newMemListener() *memListener {
	return &memListener{ch: make(chan net.Conn, 64), done: make(chan struct{}), accErr: make(chan error, 64)}
}

func (l *memListener) Accept() (net.Conn, error) {
	if l.log == nil {
		return l.accept()
	}
	l.log.enter()
	c, err := l.accept()
	l.log.leave(c, err)
	return c, err
}

func (l *memListener) accept() (net.Conn, error) {
	select {
	case e := <-l.accErr:
		return nil, e
	default:
	}
	select {
	case c := <-l.ch:
		return c, nil
	case e := <-l.accErr:
		return nil, e
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *memListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *memListener) Addr() net.Addr { return memAddr("server.example:61613") }

// dial returns the client end; the server end was offered to Accept.
func (l *memListener) dial() (client, srv *MemConn) {
	a, b := memPipe()
	l.ch <- b
	return a, b
}

// randChunk returns a fragmentation function drawn from a few styles.
func randChunk(seed int64) func(int) int {
	rng := rand.New(rand.NewSource(seed))
	var mu sync.Mutex
	style := rng.Intn(5)
	return func(avail int) int {
		mu.Lock()
		defer mu.Unlock()
		switch style {
		case 0:
			return avail
		case 1:
			return 1
		case 2:
			return 1 + rng.Intn(3)
		case 3:
			return 1 + rng.Intn(avail)
		default:
			if rng.Intn(2) == 0 {
				return avail
			}
			return 1 + rng.Intn(17)
		}
	}
}

var _ = fmt.Sprint
