package harness

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
	"github.com/go-stomp/stomp/v3/server/queue"
)

// srvWorld is one real server on an in-memory listener inside a synctest bubble, with raw clients.
type srvWorld struct {
	r     *R
	rng   *rand.Rand
	l     *memListener
	srv   *server.Server
	store *recStore
	t0    time.Time
	ticks atomic.Int64 // global event order

	mu      sync.Mutex
	clients []*rawClient
	tap     bool
	inCap   int
	base    int
	jitter  int // maximal virtual microseconds slept at injection points (0 = none)
	jrng    *rand.Rand
}

type nopLog struct{}

func (nopLog) Debugf(string, ...interface{})   {}
func (nopLog) Infof(string, ...interface{})    {}
func (nopLog) Warningf(string, ...interface{}) {}
func (nopLog) Errorf(string, ...interface{})   {}
func (nopLog) Debug(string)                    {}
func (nopLog) Info(string)                     {}
func (nopLog) Warning(string)                  {}
func (nopLog) Error(string)                    {}

// pause sleeps a random virtual time: inside a bubble this reorders what the goroutines do next.
func (w *srvWorld) pause() {
	if w.jitter == 0 {
		return
	}
	w.mu.Lock()
	k := w.jrng.Intn(w.jitter + 1)
	w.mu.Unlock()
	if k > 0 {
		if k%3 == 0 {
			runtime.Gosched()
			return
		}
		time.Sleep(time.Duration(k) * time.Microsecond)
	}
}

// leftovers compares the goroutines and connections with the time before the first client, after dropping all clients.
func (w *srvWorld) leftovers(rng *rand.Rand) (what string, detail any) {
	for _, c := range w.clients {
		if !c.gone {
			c.drop(rng.Intn(3))
		}
	}
	w.quiesce()
	for _, c := range w.clients {
		if c.srv.closeCount.Load() == 0 {
			return "the server did not close its side of a connection that had ended", map[string]any{"client": c.name, "goroutines": stompStates()}
		}
	}
	if n := libGoroutines(); n != w.base {
		return fmt.Sprintf("%d goroutines of the server are left after all connections have ended, %d before the first", n, w.base), stompStates()
	}
	return "", nil
}

type srvOpt struct {
	jitter    int
	heartBeat time.Duration
	auth      server.Authenticator
	leftovers bool // look for goroutines and connections left behind
	recorded  bool // use a recording queue storage
	accept    bool // record the Accept calls
	log       stomp.Logger
}

// inServer runs f against a fresh server in its own bubble. The server's accept and processing goroutines never end by
// design, so the bubble always ends in a reported deadlock, which is expected.
func (r *R) inServer(rng *rand.Rand, o srvOpt, f func(w *srvWorld)) {
	var fin bool
	var dead string
	done := make(chan struct{})
	// an own goroutine per bubble, so that a deadlocked one cannot hurt the next
	go func() {
		defer close(done)
		dead, fin = r.bubble(func() {
			w := &srvWorld{r: r, rng: rand.New(&lockedSource{src: rand.NewSource(rng.Int63())}), l: newMemListener(), t0: time.Now(), jitter: o.jitter, jrng: rand.New(rand.NewSource(rng.Int63()))}
			w.srv = &server.Server{Log: nopLog{}, HeartBeat: o.heartBeat, Authenticator: o.auth}
			if o.log != nil {
				w.srv.Log = o.log
			}
			if o.accept {
				w.l.log = &accLog{now: w.now, at: map[net.Conn]time.Duration{}}
			}
			if o.recorded || o.jitter > 0 {
				w.store = newRecStore(w)
				if o.heartBeat == 0 { // what else is configured must not matter
					w.srv.HeartBeat = time.Duration(rng.Intn(3)) * 10 * time.Second
				}
				w.srv.QueueStorage = w.store
			}
			go func() { _ = w.srv.Serve(w.l) }()
			synctest.Wait()
			w.base = libGoroutines()
			f(w)
			for _, c := range w.clients {
				c.c.Reset()
			}
			synctest.Wait()
			_ = w.l.Close()
			synctest.Wait()
		})
	}()
	<-done
	if !fin {
		r.Fail("bubble-stuck", "the harness itself could not make progress: "+dead, nil)
	}
}

// recStore wraps the library's in-memory storage, records every call and adds delays.
type recStore struct {
	w       *srvWorld
	inner   queue.Storage
	mu      sync.Mutex
	started int
	calls   []storeCall
	busy    atomic.Int32
	overlap atomic.Int32
	early   atomic.Int32 // calls before Start
	keep    bool
	counts  map[string]int
	nStored int
	live    map[string][]*frame.Frame // what is stored, per queue, in order
	order   string                    // first violation of first-in first-out by the built-in storage
}

type storeCall struct {
	Op    string
	Queue string
	Ptr   *frame.Frame
	F     *F
	Tick  int64
}

func newRecStore(w *srvWorld) *recStore {
	return &recStore{w: w, inner: queue.NewMemoryQueueStorage(), counts: map[string]int{}, live: map[string][]*frame.Frame{}}
}

func (s *recStore) enter(op string) {
	if s.busy.Add(1) > 1 {
		s.overlap.Add(1)
	}
	s.mu.Lock()
	s.counts[op]++
	if s.started == 0 {
		s.early.Add(1)
	}
	s.mu.Unlock()
	s.w.pause()
}
func (s *recStore) exit(op, q string, f *frame.Frame) {
	s.mu.Lock()
	switch {
	case op == "enqueue":
		s.live[q] = append(s.live[q], f)
	case op == "requeue":
		s.live[q] = append([]*frame.Frame{f}, s.live[q]...)
	default:
		var want *frame.Frame
		if l := s.live[q]; len(l) > 0 {
			want = l[0]
			s.live[q] = l[1:]
		}
		if want != f && s.order == "" {
			s.order = fmt.Sprintf("queue %s: the in-memory storage returned %v, first in the queue is %v", q, f, want)
		}
	}
	if s.keep {
		c := storeCall{Op: op, Queue: q, Ptr: f, Tick: s.w.ticks.Add(1)}
		if f != nil {
			c.F = fromLib(f)
		}
		s.calls = append(s.calls, c)
	}
	s.mu.Unlock()
	s.busy.Add(-1)
}
func (s *recStore) Enqueue(q string, f *frame.Frame) error {
	s.enter("enqueue")
	defer s.exit("enqueue", q, f)
	return s.inner.Enqueue(q, f)
}
func (s *recStore) Requeue(q string, f *frame.Frame) error {
	s.enter("requeue")
	defer s.exit("requeue", q, f)
	return s.inner.Requeue(q, f)
}
func (s *recStore) Dequeue(q string) (f *frame.Frame, err error) {
	s.enter("dequeue")
	f, err = s.inner.Dequeue(q)
	s.exit("dequeue", q, f)
	return
}

// replay checks the recorded calls: a message is stored once at a time, under its own queue, and taken from there.
func (s *recStore) replay() string {
	in := map[*frame.Frame]string{}
	for _, c := range s.calls {
		switch c.Op {
		case "enqueue", "requeue":
			if c.F == nil {
				return "a nil frame was stored"
			}
			if d := c.F.val("destination"); d != c.Queue {
				return fmt.Sprintf("a message for %q was stored in queue %q", d, c.Queue)
			}
			if _, ok := in[c.Ptr]; ok {
				return fmt.Sprintf("message %s was stored while it is stored already", c.F.val("x-id"))
			}
			in[c.Ptr] = c.Queue
		case "dequeue":
			if c.Ptr == nil {
				continue
			}
			if in[c.Ptr] != c.Queue {
				return fmt.Sprintf("message %s was taken from queue %q but stored in %q", c.F.val("x-id"), c.Queue, in[c.Ptr])
			}
			delete(in, c.Ptr)
		}
	}
	s.nStored = len(in)
	return ""
}

func (s *recStore) stored() int { return s.nStored }

func (s *recStore) Start() {
	s.mu.Lock()
	s.started++
	s.mu.Unlock()
}
func (s *recStore) Stop() {}

// rawClient is a STOMP client that is only a socket: it speaks the harness's own codec.
type rawClient struct {
	w       *srvWorld
	name    string
	c, srv  *MemConn
	version string

	mu       sync.Mutex
	inbox    []recvd // everything received and not yet taken
	all      int
	err      error // why reading ended
	ended    bool
	endTick  int64
	endAt    time.Duration
	bad      []string
	onFrame  func(*F)
	gone     bool // the harness ended the connection
	nReceipt int
	lastTx   time.Duration
	hb       int
	txGaps   []time.Duration
	overCh   chan struct{} // closed when reading has ended
}

type recvd struct {
	F    *F
	Tick int64
	At   time.Duration
}

func (w *srvWorld) now() time.Duration { return time.Since(w.t0) }

// dial opens a transport connection and starts its reader.
func (w *srvWorld) dial(name string) *rawClient {
	a, b := memPipe()
	a.remote = memAddr("server.example:61613")
	b.remote = memAddr(name + ".example:4242")
	c := &rawClient{w: w, name: name, c: a, srv: b, overCh: make(chan struct{})}
	b.tapOn = w.tap
	if w.inCap > 0 {
		a.SetInCap(w.inCap)
		b.SetInCap(w.inCap)
	}
	if w.jitter > 0 {
		b.beforeWrite = func([]byte) { w.pause() }
		b.beforeRead = w.pause
		if w.rng.Intn(3) == 0 {
			a.beforeRead = w.pause // a client that reads slowly
		}
	}
	w.mu.Lock()
	w.clients = append(w.clients, c)
	w.mu.Unlock()
	if w.rng.Intn(3) == 0 {
		b.Fragment(randChunk(w.rng.Int63()))
	}
	if w.rng.Intn(3) == 0 {
		a.Fragment(randChunk(w.rng.Int63()))
	}
	w.l.ch <- b
	go c.read()
	return c
}

func (c *rawClient) over() <-chan struct{} { return c.overCh }

func (c *rawClient) read() {
	defer close(c.overCh)
	ds := newDecStream(c.c)
	for {
		f, err := ds.next()
		at := c.w.now()
		tick := c.w.ticks.Add(1)
		c.mu.Lock()
		if err != nil {
			c.err = err
			c.ended = true
			c.endTick = tick
			c.endAt = at
			if len(ds.buf) > 0 && err == io.EOF {
				c.bad = append(c.bad, "the stream ended inside a frame: "+q(ds.buf))
			}
			if strings.Contains(err.Error(), "malformed") {
				c.bad = append(c.bad, err.Error())
			}
			c.mu.Unlock()
			return
		}
		if f.Cmd == "" {
			c.hb++
		} else {
			c.inbox = append(c.inbox, recvd{f, tick, at})
			c.all++
		}
		cb := c.onFrame
		c.mu.Unlock()
		if cb != nil {
			cb(f)
		}
	}
}

// send writes frames in one piece; errors mean the connection is gone.
func (c *rawClient) send(fs ...*F) error {
	var b []byte
	for _, f := range fs {
		b = append(b, f.enc()...)
	}
	_, err := c.c.Write(b)
	return err
}

func (c *rawClient) raw(b []byte) error { _, err := c.c.Write(b); return err }

// beats says how many heart-beats were received.
func (c *rawClient) beats() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.hb
}

// take returns and clears what was received.
func (c *rawClient) take() []recvd {
	c.mu.Lock()
	defer c.mu.Unlock()
	x := c.inbox
	c.inbox = nil
	return x
}

func (c *rawClient) isEnded() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.ended }

func (c *rawClient) problems() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string{}, c.bad...)
}

// connect performs the handshake and returns the first frame the server sent.
func (c *rawClient) connect(kv ...string) *F {
	if len(kv) == 0 {
		kv = []string{"accept-version", []string{"1.0,1.1,1.2", "1.2", "1.1", "1.1,1.2", "1.0,1.1"}[c.w.rng.Intn(5)], "host", "h"}
	}
	cmd := "CONNECT"
	if c.w.rng.Intn(3) == 0 {
		cmd = "STOMP"
	}
	_ = c.send(mk(cmd, kv...))
	synctest.Wait()
	if c.w.jitter > 0 {
		c.w.quiesce()
	}
	fs := c.take()
	if len(fs) == 0 {
		return nil
	}
	c.version = fs[0].F.val("version")
	return fs[0].F
}

// client dials and connects; it reports a violation if the server refuses.
func (w *srvWorld) client(name string, kv ...string) *rawClient {
	c := w.dial(name)
	if f := c.connect(kv...); f == nil || f.Cmd != "CONNECTED" {
		w.r.Fail("connect-refused", "a valid CONNECT was not answered with CONNECTED", map[string]any{"client": name, "answer": fmt.Sprint(f)})
	}
	return c
}

// quiesce waits until the server and all clients have nothing left to do. With jitter, goroutines sleep for virtual
// microseconds, so let virtual time pass until nothing changes any more.
func (w *srvWorld) quiesce() {
	synctest.Wait()
	if w.jitter == 0 {
		return
	}
	last := int64(-1)
	idle := 0
	for idle < 3 {
		time.Sleep(time.Duration(w.jitter+5) * 4 * time.Microsecond)
		synctest.Wait()
		n := w.activity()
		if n == last {
			idle++
		} else {
			idle = 0
			last = n
		}
	}
}

// activity counts everything that happened on any wire or in the storage.
func (w *srvWorld) activity() int64 {
	w.mu.Lock()
	cs := append([]*rawClient{}, w.clients...)
	w.mu.Unlock()
	n := w.ticks.Load()
	for _, c := range cs {
		for _, h := range []*pipeHalf{c.c.in, c.c.out} {
			h.mu.Lock()
			n += h.total + h.nReads + h.nWrites
			h.mu.Unlock()
		}
		n += int64(c.srv.closeCount.Load())
	}
	if w.store != nil {
		w.store.mu.Lock()
		for _, v := range w.store.counts {
			n += int64(v)
		}
		w.store.mu.Unlock()
	}
	return n
}

// drop ends the connection in one of the ways a client can vanish.
func (c *rawClient) drop(how int) {
	c.gone = true
	switch how % 4 {
	case 0:
		_ = c.c.Close()
	case 1:
		c.c.Reset()
	case 2:
		c.c.CloseWrite()
	default:
		_ = c.c.Close()
	}
}

// ackHeader names message m the way version v wants it.
func ackFrame(cmd, version string, m *F) *F {
	if version == "1.2" {
		return mk(cmd, "id", m.val("ack"))
	}
	return mk(cmd, "subscription", m.val("subscription"), "message-id", m.val("message-id"))
}

// lockedSource lets several goroutines share a generator.
type lockedSource struct {
	mu  sync.Mutex
	src rand.Source
}

func (l *lockedSource) Int63() int64    { l.mu.Lock(); defer l.mu.Unlock(); return l.src.Int63() }
func (l *lockedSource) Seed(seed int64) { l.mu.Lock(); defer l.mu.Unlock(); l.src.Seed(seed) }
