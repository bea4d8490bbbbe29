package harness

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
)

// Concurrent client engine. Many goroutines use one real client connection at the same time, in real time; the peer is a
// scripted broker that answers late, out of order, twice or never, sends messages and noise, and may end the connection
// at any moment. Everything is recorded with a common event clock and judged afterwards.

const ruleCliConc = "one case = one client connection used by 2-12 goroutines at once against a scripted peer, recorded with one event clock and judged offline; "

type ccCall struct {
	g, i       int
	kind       string
	name       string
	key        string // identifies its frame on the wire, "": it must not send one
	exp        *expF
	start, end int64
	t0, t1     time.Time
	done       bool
	err        error
	confirm    bool
	timeout    time.Duration
	timeText   string
	want       string // expected error text on a healthy connection
	sub        *ccSub
	tx         *ccTx
	wire       int // index in the wire log, -1: none
	receipt    string
	closedAt   bool // the network connection was closed when the call returned
}

type ccTx struct {
	t           *stomp.Transaction
	id          string
	g           int
	wireBegin   int
	wireEnd     int
	completed   bool
	withReceipt bool
}

type ccSub struct {
	s       *stomp.Subscription
	id      string
	ack     stomp.AckMode
	live    bool // broker: SUBSCRIBE has arrived, not confirmed to have ended
	sent    []*F
	got     []gotMsg
	mu      sync.Mutex
	closed  bool
	unsubs  []*ccCall
	unsubRx bool // the broker has confirmed the UNSUBSCRIBE
	slow    int
	acker   bool
}

type ccHeld struct {
	id    string
	final func()
}

type ccWire struct {
	seq int64
	f   *F
}

type cc struct {
	r    *R
	rng  *rand.Rand
	a, b *MemConn
	conn *stomp.Conn
	prof map[string]int

	clock      atomic.Int64
	progress   atomic.Int64
	mu         sync.Mutex
	calls      []*ccCall
	subs       []*ccSub
	subByID    map[string]*ccSub
	txs        []*ccTx
	pool       []*stomp.Message // received, not yet acknowledged by anybody
	wire       []ccWire
	rcptSeq    map[string]int64 // receipt id -> clock when the peer first began to send it
	nIn        int              // frames and heart-beats the peer has written completely
	nMsg       int
	badWire    string
	peerErr    error
	peerOver   chan struct{}
	writerOver chan struct{}
	todo       []*F
	todoCond   *sync.Cond
	todoEnd    bool

	wmu     sync.Mutex // the peer's writes
	prng    *rand.Rand // under wmu
	quit    chan struct{}
	quitOne sync.Once
	late    sync.WaitGroup
	stopMsg atomic.Bool
	held    []ccHeld // receipts held back (under mu)

	version                string
	stats                  bool
	rcvT, unsubT, discT    time.Duration
	withhold               int // of 16: receipts that are never sent
	lateOf                 int // of 16: receipts that are sent late
	ending                 string
	endText                string
	quietSeq               int64 // everything up to here had arrived
	endSeq                 int64 // clock when the peer began to end the connection
	ended                  atomic.Bool
	strict                 bool // everything the peer sent before the end must be delivered
	localEnd               atomic.Bool
	discCalls              []*ccCall
	failed                 bool
	paused                 bool
	nextSub, nextMsg, nTag atomic.Int64
}

func (c *cc) fail(props []string, key, what string, detail any) {
	c.mu.Lock()
	if c.failed {
		c.mu.Unlock()
		return
	}
	c.failed = true
	c.mu.Unlock()
	for _, p := range props {
		if p == c.r.Prop {
			c.r.Fail("conc-"+key, what, map[string]any{"detail": detail, "ending": c.ending, "version": c.version,
				"timeouts": fmt.Sprint(c.rcvT, c.unsubT, c.discT)})
			return
		}
	}
	c.r.Count("failures_of_other_properties", 1)
	if os.Getenv("VERIF_OTHER") != "" {
		fmt.Printf("OTHER %v %s %s\n%v\n", props, key, what, detail)
	}
}

func (c *cc) tick() int64 { c.progress.Add(1); return c.clock.Add(1) }

// ---- the peer

func (c *cc) peerWrite(f *F, before func(seq int64) bool) bool {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	if c.ended.Load() {
		return false
	}
	seq := c.tick()
	if before != nil && !before(seq) {
		return false
	}
	_, err := c.b.Write(f.enc())
	c.tick()
	if err != nil {
		return false
	}
	c.mu.Lock()
	c.nIn++
	c.mu.Unlock()
	return true
}

func (c *cc) sendReceipt(id string, final func()) {
	f := mk("RECEIPT", "receipt-id", id)
	c.peerWrite(f, func(seq int64) bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		if final != nil {
			final()
		}
		if _, ok := c.rcptSeq[id]; !ok {
			c.rcptSeq[id] = seq
		}
		return true
	})
}

func (c *cc) sleepQuit(d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return true
	case <-c.quit:
		return false
	}
}

func (c *cc) answer(rng *rand.Rand, id string, final func()) {
	k := rng.Intn(16)
	switch {
	case k < c.withhold:
		c.mu.Lock()
		c.held = append(c.held, ccHeld{id, final})
		c.mu.Unlock()
		c.r.Count("conc_receipts_withheld", 1)
		return
	case k < c.withhold+c.lateOf:
		d := time.Duration(rng.Intn(4000)) * time.Microsecond
		twice := rng.Intn(4) == 0
		c.late.Add(1)
		go func() {
			defer c.late.Done()
			c.sleepQuit(d)
			c.sendReceipt(id, final)
			if twice {
				c.sendReceipt(id, nil)
			}
		}()
		c.r.Count("conc_receipts_late", 1)
	default:
		c.sendReceipt(id, final)
	}
}

func (c *cc) peer() {
	defer close(c.peerOver)
	defer func() {
		c.mu.Lock()
		c.todoEnd = true
		c.todoCond.Signal()
		c.mu.Unlock()
	}()
	ds := newDecStream(c.b)
	for {
		f, err := ds.next()
		if err != nil {
			c.mu.Lock()
			c.peerErr = err
			if strings.Contains(err.Error(), "malformed") {
				c.badWire = err.Error()
			} else if len(ds.buf) > 0 {
				c.badWire = "the stream ended inside a frame: " + q(ds.buf)
			}
			c.mu.Unlock()
			c.tick()
			return
		}
		seq := c.tick()
		if f.Cmd == "" {
			continue
		}
		c.mu.Lock()
		c.wire = append(c.wire, ccWire{seq, f})
		n := len(c.wire)
		c.mu.Unlock()
		if n == 1 {
			continue // CONNECT, answered elsewhere
		}
		// the peer goes on reading while it writes
		c.mu.Lock()
		c.todo = append(c.todo, f)
		c.todoCond.Signal()
		c.mu.Unlock()
	}
}

// peerWriter reacts to what the client has sent.
func (c *cc) peerWriter(rng *rand.Rand) {
	defer close(c.writerOver)
	for {
		c.mu.Lock()
		for len(c.todo) == 0 && !c.todoEnd {
			c.todoCond.Wait()
		}
		if len(c.todo) == 0 {
			c.mu.Unlock()
			return
		}
		f := c.todo[0]
		c.todo = c.todo[1:]
		c.mu.Unlock()
		switch f.Cmd {
		case "SUBSCRIBE":
			c.mu.Lock()
			s := c.subByID[f.val("x-tag")]
			if s != nil {
				s.id = f.val("id")
				s.live = true
			}
			c.mu.Unlock()
		case "UNSUBSCRIBE":
			id := f.val("id")
			c.mu.Lock()
			var s *ccSub
			for _, t := range c.subs {
				if t.id == id {
					s = t
				}
			}
			c.mu.Unlock()
			if s != nil && rng.Intn(2) == 0 {
				c.burst(rng, s, 1+rng.Intn(20)) // before the confirmation
			}
			if rc := f.val("receipt"); rc != "" {
				c.answer(rng, rc, func() {
					if s != nil {
						s.live, s.unsubRx = false, true
					}
				})
			}
			continue
		case "DISCONNECT":
			if rng.Intn(3) == 0 {
				// what is still on its way to the client
				c.mu.Lock()
				var l []*ccSub
				for _, s := range c.subs {
					if s.live {
						l = append(l, s)
					}
				}
				c.mu.Unlock()
				if len(l) > 0 {
					c.burst(rng, l[rng.Intn(len(l))], 1+rng.Intn(10))
				}
			}
		}
		if rc := f.val("receipt"); rc != "" {
			c.answer(rng, rc, nil)
		}
	}
}

// burst sends messages while the subscription is live; the confirmation of its end cannot come in between.
func (c *cc) burst(rng *rand.Rand, s *ccSub, n int) {
	for i := 0; i < n; i++ {
		k := c.nextMsg.Add(1)
		f := mk("MESSAGE", "destination", "/queue/x", "message-id", fmt.Sprintf("m%d", k), "subscription", s.id, "ack", fmt.Sprintf("a%d", k), "x", randText(rng, 2))
		f.Body = randBody(rng, rng.Intn(1+rng.Intn(300)), true)
		f.H = append(f.H, [2]string{"content-length", fmt.Sprint(len(f.Body))})
		if !c.peerWrite(f, func(seq int64) bool {
			c.mu.Lock()
			defer c.mu.Unlock()
			if !s.live {
				return false
			}
			s.sent = append(s.sent, f)
			return true
		}) {
			return
		}
		c.r.Count("conc_messages", 1)
	}
}

// noise sends messages, heart-beats and frames that mean nothing.
func (c *cc) noise(rng *rand.Rand, n int) {
	for i := 0; i < n && !c.stopMsg.Load() && !c.ended.Load(); i++ {
		switch k := rng.Intn(20); {
		case k < 14:
			c.mu.Lock()
			var l []*ccSub
			for _, s := range c.subs {
				if s.live && s.id != "" {
					l = append(l, s)
				}
			}
			c.mu.Unlock()
			if len(l) == 0 {
				if !c.sleepQuit(100 * time.Microsecond) {
					return
				}
				continue
			}
			m := 1
			if rng.Intn(6) == 0 {
				m = 1 + rng.Intn(60)
			}
			s := l[rng.Intn(len(l))]
			c.burst(rng, s, m)
		case k < 16:
			c.peerWrite(&F{}, nil)
		case k < 17:
			c.peerWrite(mk("MESSAGE", "subscription", "nobody", "message-id", "q", "destination", "d"), nil)
		case k < 18:
			c.peerWrite(mk("RECEIPT", "receipt-id", fmt.Sprintf("of-nobody-%d", rng.Intn(9))), nil)
		case k < 19:
			// looks like the answer to a receipt request, but is a message
			c.mu.Lock()
			id := ""
			if len(c.held) > 0 {
				id = c.held[rng.Intn(len(c.held))].id
			}
			taken := c.subByReal(id)
			c.mu.Unlock()
			if id != "" && taken == nil {
				c.peerWrite(mk("MESSAGE", "subscription", id, "message-id", "q", "destination", "d"), nil)
			}
		default:
			if !c.sleepQuit(time.Duration(rng.Intn(500)) * time.Microsecond) {
				return
			}
		}
		if rng.Intn(8) == 0 {
			runtime.Gosched()
		}
	}
}

func (c *cc) subByReal(id string) *ccSub {
	for _, s := range c.subs {
		if s.id == id {
			return s
		}
	}
	return nil
}

// end ends the connection from the peer's side.
func (c *cc) end(rng *rand.Rand) {
	c.stopMsg.Store(true)
	c.wmu.Lock()
	defer c.wmu.Unlock()
	if c.ended.Load() {
		return
	}
	c.mu.Lock()
	c.endSeq = c.tick()
	c.mu.Unlock()
	c.ended.Store(true)
	switch c.ending {
	case "eof":
		c.b.CloseWrite()
	case "close":
		_ = c.b.Close()
	case "reset":
		c.b.Reset()
	case "error":
		_, _ = c.b.Write(mk("ERROR", "message", c.endText).with([]byte("why")).enc())
	case "garbage":
		_, _ = c.b.Write([]byte("NO-SUCH-COMMAND\n\n\x00"))
	case "cut":
		_, _ = c.b.Write([]byte("MESSAGE\nsubscription:1\nmessage-id:1\n\nhalf a body"))
		c.b.CloseWrite()
	case "writes":
		c.a.CutOutgoing(rng.Intn(200), errPipe)
		c.ended.Store(false) // the peer can go on sending
	case "stops":
		// reads nothing any more
		c.b.Pause(true)
		c.b.SetInCap(1 + rng.Intn(2000))
		c.mu.Lock()
		c.paused = true
		c.mu.Unlock()
	}
}

// ---- the application

func (c *cc) do(call *ccCall, f func() error) {
	call.wire = -1
	c.mu.Lock()
	c.calls = append(c.calls, call)
	c.mu.Unlock()
	call.t0 = time.Now()
	call.start = c.tick()
	err := f()
	closed := c.a.closeCount.Load() > 0
	end := c.tick()
	t1 := time.Now()
	c.mu.Lock()
	call.err, call.end, call.t1, call.done, call.closedAt = err, end, t1, true, closed
	c.mu.Unlock()
}

func (c *cc) send(g, i int, rng *rand.Rand, tx *ccTx) *ccCall {
	tag := fmt.Sprintf("g%d-%d", g, c.nTag.Add(1))
	body := randBody(rng, rng.Intn(1+rng.Intn(2000)), true)
	dest := fmt.Sprintf("/queue/%d", rng.Intn(5))
	e := &expF{cmd: "SEND", body: body, std: [][2]string{{"content-length", fmt.Sprint(len(body))}, {"destination", dest}, {"content-type", "t/" + tag}},
		custom: [][2]string{{"x-tag", tag}}}
	opts := []func(*frame.Frame) error{stomp.SendOpt.Header("x-tag", tag)}
	call := &ccCall{g: g, i: i, kind: "send", name: "send " + tag, key: "SEND " + tag, exp: e, tx: tx}
	if rng.Intn(2) == 0 {
		v := randText(rng, 3)
		opts = append(opts, stomp.SendOpt.Header("x-more", v))
		e.custom = append(e.custom, [2]string{"x-more", v})
	}
	if rng.Intn(3) == 0 {
		opts = append(opts, stomp.SendOpt.Receipt)
		e.receipt = "*"
		call.kind, call.confirm, call.timeout, call.timeText = "send-receipt", true, c.rcvT, stomp.ErrMsgReceiptTimeout.Error()
	}
	if rng.Intn(16) == 0 {
		text := "option failed " + tag
		opts = append(opts, func(*frame.Frame) error { return errors.New(text) })
		call.want, call.key, call.confirm = text, "", false
	}
	if tx != nil {
		e.std = append(e.std, [2]string{"transaction", tx.id})
		call.kind = "tx-" + call.kind
		call.timeout = 0
		c.do(call, func() error { return tx.t.Send(dest, "t/"+tag, body, opts...) })
	} else {
		c.do(call, func() error { return c.conn.Send(dest, "t/"+tag, body, opts...) })
	}
	return call
}

func (c *cc) subscribe(g, i int, rng *rand.Rand) {
	tag := fmt.Sprintf("s%d", c.nextSub.Add(1))
	ack := []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}[rng.Intn(3)]
	s := &ccSub{ack: ack, slow: rng.Intn(4), acker: ack != stomp.AckAuto && rng.Intn(100) < c.prof["acker"]}
	e := &expF{cmd: "SUBSCRIBE", std: [][2]string{{"destination", "/queue/x"}, {"ack", ack.String()}}, custom: [][2]string{{"x-tag", tag}}, id: "*"}
	opts := []func(*frame.Frame) error{stomp.SubscribeOpt.Header("x-tag", tag)}
	if rng.Intn(4) == 0 {
		opts = append(opts, stomp.SubscribeOpt.Id("my-"+tag))
		e.id = ""
		e.std = append(e.std, [2]string{"id", "my-" + tag})
	}
	call := &ccCall{g: g, i: i, kind: "subscribe", name: "subscribe " + tag, key: "SUBSCRIBE " + tag, exp: e, sub: s}
	c.mu.Lock()
	c.subByID[tag] = s
	c.mu.Unlock()
	c.do(call, func() error {
		sub, err := c.conn.Subscribe("/queue/x", ack, opts...)
		s.s = sub
		return err
	})
	if call.err != nil || s.s == nil {
		return
	}
	c.mu.Lock()
	c.subs = append(c.subs, s)
	c.mu.Unlock()
	go c.consume(s, rng.Int63())
}

func (c *cc) consume(s *ccSub, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	n := 0
	g := 1000 + int(seed%1000000)
	for m := range s.s.C {
		f := &F{Cmd: "MESSAGE"}
		if m != nil {
			f.Body = append([]byte{}, m.Body...)
			if m.Header != nil {
				f.H = fromLib(&frame.Frame{Header: m.Header}).H
			}
		}
		s.mu.Lock()
		if m == nil {
			s.got = append(s.got, gotMsg{f: f})
		} else {
			s.got = append(s.got, gotMsg{m: m, err: m.Err, f: f})
		}
		s.mu.Unlock()
		c.progress.Add(1)
		if m == nil || m.Err != nil {
			continue
		}
		if s.acker {
			c.ackMsg(g, n, rng, m, nil)
		} else if s.ack != stomp.AckAuto {
			c.mu.Lock()
			c.pool = append(c.pool, m)
			c.mu.Unlock()
		}
		n++
		switch s.slow {
		case 1:
			runtime.Gosched()
		case 2:
			if rng.Intn(20) == 0 {
				time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
			}
		}
	}
	s.mu.Lock()
	s.closed = true
	s.mu.Unlock()
	c.progress.Add(1)
}

func (c *cc) ackMsg(g, i int, rng *rand.Rand, m *stomp.Message, tx *ccTx) {
	nack := c.version != "1.0" && rng.Intn(4) == 0
	verb := "ACK"
	if nack {
		verb = "NACK"
	}
	mid, aid := m.Header.Get("message-id"), m.Header.Get("ack")
	e := &expF{cmd: verb}
	key := verb
	if c.version == "1.2" {
		e.std = [][2]string{{"id", aid}}
		key = "ACK " + aid
	} else {
		e.std = [][2]string{{"subscription", m.Subscription.Id()}, {"message-id", mid}}
		key = "ACK " + mid
	}
	call := &ccCall{g: g, i: i, kind: "ack", name: verb + " " + mid, key: key, exp: e, tx: tx}
	if tx != nil {
		call.kind = "tx-ack"
		e.std = append(e.std, [2]string{"transaction", tx.id})
	}
	c.do(call, func() error {
		switch {
		case tx != nil && nack:
			return tx.t.Nack(m)
		case tx != nil:
			return tx.t.Ack(m)
		case nack:
			return c.conn.Nack(m)
		default:
			return c.conn.Ack(m)
		}
	})
}

func (c *cc) takeMsg(rng *rand.Rand) *stomp.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.pool) == 0 {
		return nil
	}
	i := rng.Intn(len(c.pool))
	m := c.pool[i]
	c.pool[i] = c.pool[len(c.pool)-1]
	c.pool = c.pool[:len(c.pool)-1]
	return m
}

func (c *cc) transaction(g, i int, rng *rand.Rand) {
	tx := &ccTx{g: g, wireBegin: -1, wireEnd: -1}
	e := &expF{cmd: "BEGIN"}
	call := &ccCall{g: g, i: i, kind: "begin", name: "begin", key: "?", exp: e, tx: tx}
	c.do(call, func() error {
		t, err := c.conn.BeginWithError()
		tx.t = t
		return err
	})
	if tx.t == nil {
		c.fail([]string{"C14", "C16"}, "nil-transaction", "Begin returned no transaction", fmt.Sprint(call.err))
		return
	}
	tx.id = tx.t.Id()
	e.std = [][2]string{{"transaction", tx.id}}
	c.mu.Lock()
	call.key = "BEGIN " + tx.id
	c.txs = append(c.txs, tx)
	c.mu.Unlock()
	if p := newID(tx.id, "a transaction"); p != "" {
		c.fail([]string{"C19", "C14"}, "id-reused", p, nil)
	}
	if call.err != nil {
		return
	}
	for k, n := 0, rng.Intn(6); k < n; k++ {
		if m := c.takeMsg(rng); m != nil && rng.Intn(3) == 0 {
			c.ackMsg(g, i, rng, m, tx)
		} else {
			c.send(g, i, rng, tx)
		}
		if rng.Intn(6) == 0 {
			c.send(g, i, rng, nil) // not part of it
		}
	}
	commit, rcpt := rng.Intn(3) > 0, rng.Intn(2) == 0
	verb := "ABORT"
	if commit {
		verb = "COMMIT"
	}
	ce := &expF{cmd: verb, std: [][2]string{{"transaction", tx.id}}}
	cl := &ccCall{g: g, i: i, kind: strings.ToLower(verb), name: verb + " " + tx.id, key: "END " + tx.id, exp: ce, tx: tx, confirm: rcpt}
	if rcpt {
		ce.receipt = "*"
		cl.kind += "-receipt"
	}
	c.do(cl, func() error {
		switch {
		case commit && rcpt:
			return tx.t.CommitWithReceipt()
		case commit:
			return tx.t.Commit()
		case rcpt:
			return tx.t.AbortWithReceipt()
		default:
			return tx.t.Abort()
		}
	})
	if cl.err == nil && rng.Intn(2) == 0 {
		// final
		x := &ccCall{g: g, i: i, kind: "tx-after", name: "use of a completed transaction", tx: tx, want: stomp.ErrCompletedTransaction.Error()}
		which := rng.Intn(4)
		c.do(x, func() error {
			switch which {
			case 0:
				return tx.t.Commit()
			case 1:
				return tx.t.AbortWithReceipt()
			case 2:
				return tx.t.Send("/queue/x", "", nil)
			default:
				return tx.t.CommitWithReceipt()
			}
		})
	}
}

func (c *cc) unsubscribe(g, i int, rng *rand.Rand) {
	c.mu.Lock()
	var s *ccSub
	if len(c.subs) > 0 {
		s = c.subs[rng.Intn(len(c.subs))]
	}
	c.mu.Unlock()
	if s == nil {
		return
	}
	n := 1
	if rng.Intn(3) == 0 {
		n = 2 + rng.Intn(3)
	}
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		gg := g
		if k > 0 {
			gg = 500000 + int(c.nTag.Add(1))
		}
		call := &ccCall{g: gg, i: i, kind: "unsubscribe", name: "unsubscribe " + s.s.Id(), key: "UNSUB " + s.s.Id(), sub: s, confirm: true, timeout: c.unsubT,
			timeText: stomp.ErrUnsubscribeReceiptTimeout.Error(), exp: &expF{cmd: "UNSUBSCRIBE", std: [][2]string{{"id", s.s.Id()}}, receipt: "*"}}
		c.mu.Lock()
		s.unsubs = append(s.unsubs, call)
		c.mu.Unlock()
		run := func() {
			c.do(call, func() error { return s.s.Unsubscribe() })
			if call.err == nil && s.s.Active() {
				c.fail([]string{"C15"}, "active", "Active is true after a successful Unsubscribe", s.s.Id())
			}
		}
		if k == n-1 {
			run()
		} else {
			wg.Add(1)
			go func() { defer wg.Done(); run() }()
		}
	}
	wg.Wait()
}

func (c *cc) disconnect(g, i int, must bool) {
	call := &ccCall{g: g, i: i, kind: "disconnect", name: "Disconnect", confirm: true, timeout: c.discT,
		timeText: stomp.ErrDisconnectReceiptTimeout.Error(), key: "DISCONNECT", exp: &expF{cmd: "DISCONNECT", receipt: "*"}}
	if must {
		call.kind, call.name, call.key, call.confirm = "must-disconnect", "MustDisconnect", "", false
	}
	c.mu.Lock()
	c.discCalls = append(c.discCalls, call)
	c.mu.Unlock()
	c.localEnd.Store(true)
	c.do(call, func() error {
		if must {
			return c.conn.MustDisconnect()
		}
		return c.conn.Disconnect()
	})
}

func (c *cc) worker(g int, rng *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		switch pickW(rng, c.prof2()) {
		case "send":
			c.send(g, i, rng, nil)
		case "sub":
			if c.nextSub.Load() < 12 {
				c.subscribe(g, i, rng)
			}
		case "unsub":
			c.unsubscribe(g, i, rng)
		case "ack":
			if m := c.takeMsg(rng); m != nil {
				c.ackMsg(g, i, rng, m, nil)
			}
		case "tx":
			c.transaction(g, i, rng)
		case "stats":
			_ = c.conn.Stats()
			_, _, _ = c.conn.Version(), c.conn.Session(), c.conn.Server()
		case "pause":
			time.Sleep(time.Duration(rng.Intn(400)) * time.Microsecond)
		}
		if rng.Intn(8) == 0 {
			runtime.Gosched()
		}
	}
}

func (c *cc) prof2() map[string]int {
	p := map[string]int{}
	for k, v := range c.prof {
		if k != "acker" && !strings.HasPrefix(k, "end-") {
			p[k] = v
		}
	}
	return p
}

func ccProf(kv ...any) map[string]int {
	base := wts("send", 10, "sub", 3, "unsub", 1, "ack", 3, "tx", 2, "stats", 1, "pause", 1, "acker", 50,
		"end-none", 8, "end-eof", 1, "end-close", 1, "end-reset", 1, "end-error", 1, "end-garbage", 1, "end-cut", 1, "end-writes", 1, "end-stops", 1, "end-disc", 2, "end-must", 1)
	for i := 0; i+1 < len(kv); i += 2 {
		base[kv[i].(string)] = kv[i+1].(int)
	}
	return base
}

func (r *R) cliConcurrent(label string, n int, prof map[string]int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) { r.ccOne(i, rng, prof) })
}

func (r *R) ccOne(idx int, rng *rand.Rand, prof map[string]int) {
	base := libGoroutines()
	a, b := memPipe()
	c := &cc{r: r, rng: rng, a: a, b: b, prof: prof, subByID: map[string]*ccSub{}, rcptSeq: map[string]int64{},
		peerOver: make(chan struct{}), writerOver: make(chan struct{}), quit: make(chan struct{}), stats: rng.Intn(2) == 0 || r.Prop == "C20"}
	c.todoCond = sync.NewCond(&c.mu)
	ends := map[string]int{}
	for k, v := range prof {
		if strings.HasPrefix(k, "end-") {
			ends[k[4:]] = v
		}
	}
	c.ending = pickW(rng, ends)
	c.endText = fmt.Sprintf("server error %d", rng.Int63())
	c.version = []string{"1.0", "1.1", "1.2", "1.2"}[rng.Intn(4)]
	ms := func() time.Duration { return time.Duration(1+rng.Intn(25)) * time.Millisecond }
	if rng.Intn(2) == 0 {
		c.rcvT, c.unsubT, c.withhold = ms(), ms(), 2
		if r.Prop == "C11" {
			c.withhold = 5
		}
	}
	c.discT = 0
	if rng.Intn(2) == 0 || c.ending == "stops" {
		c.discT = 5*time.Millisecond + ms()
	}
	c.lateOf = rng.Intn(8)
	if rng.Intn(3) == 0 {
		a.Fragment(randChunk(rng.Int63()))
	}
	if rng.Intn(3) == 0 {
		b.Fragment(randChunk(rng.Int63()))
	}
	if rng.Intn(3) == 0 {
		b.SetInCap(1 + rng.Intn(3000))
	}
	if rng.Intn(3) == 0 {
		a.SetInCap(1 + rng.Intn(3000))
	}
	jr := rand.New(rand.NewSource(rng.Int63()))
	var jm sync.Mutex
	jit := func() {
		jm.Lock()
		k := jr.Intn(40)
		jm.Unlock()
		switch {
		case k == 0:
			time.Sleep(50 * time.Microsecond)
		case k < 8:
			runtime.Gosched()
		}
	}
	if rng.Intn(2) == 0 {
		a.beforeWrite = func([]byte) { jit() }
		a.beforeRead = jit
	}
	prng := rand.New(rand.NewSource(rng.Int63()))
	go c.peer()
	go c.peerWriter(prng)
	cf := mk("CONNECTED", "version", c.version)
	go func() { _, _ = b.Write(cf.enc()) }()
	o := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nopLog{}), stomp.ConnOpt.RcvReceiptTimeout(c.rcvT),
		stomp.ConnOpt.UnsubscribeReceiptTimeout(c.unsubT), stomp.ConnOpt.DisconnectReceiptTimeout(c.discT), stomp.ConnOpt.MsgSendTimeout(0)}
	if c.stats {
		o = append(o, stomp.ConnOpt.WithStats())
	}
	if rng.Intn(2) == 0 {
		o = append(o, stomp.ConnOpt.ReadChannelCapacity(1+rng.Intn(3)), stomp.ConnOpt.WriteChannelCapacity(1+rng.Intn(3)))
	}
	conn, err := stomp.Connect(a, o...)
	if err != nil {
		c.fail(cliAll, "connect", "a valid CONNECTED was refused: "+err.Error(), nil)
		return
	}
	c.conn = conn

	stuck := func(what string, props []string, dump string) {
		if dump == "watchdog" {
			r.Note("watchdog: " + what)
			r.Count("inconclusive_cases", 1)
			return
		}
		c.fail(props, "stuck", what, dump)
	}

	// statistics never go back
	stopStats := make(chan struct{})
	var statsOver sync.WaitGroup
	if c.stats && rng.Intn(2) == 0 {
		statsOver.Add(1)
		go func() {
			defer statsOver.Done()
			var last stomp.ConnectionStats
			for {
				s := conn.Stats()
				if s.ReadsReceived < last.ReadsReceived || s.WritesSent < last.WritesSent {
					c.fail([]string{"C20"}, "stats-back", fmt.Sprintf("statistics went from %+v to %+v", last, s), nil)
				}
				last = s
				select {
				case <-stopStats:
					return
				case <-time.After(100 * time.Microsecond):
				}
			}
		}()
	}

	nw := 2 + rng.Intn(11)
	var wg sync.WaitGroup
	var workersDone atomic.Bool
	for g := 0; g < nw; g++ {
		wr := rand.New(rand.NewSource(rng.Int63()))
		k := 3 + rng.Intn(30)
		wg.Add(1)
		go func() { defer wg.Done(); c.worker(g, wr, k) }()
	}
	go func() { wg.Wait(); workersDone.Store(true) }()
	nr := rand.New(rand.NewSource(rng.Int63()))
	noiseOver := make(chan struct{})
	go func() { defer close(noiseOver); c.noise(nr, 20+nr.Intn(400)) }()

	// confirmations held back for ever would be waited for, for ever, where there is no timeout: give them in the end
	relOver := make(chan struct{})
	go func() {
		defer close(relOver)
		for {
			select {
			case <-c.quit:
				return
			case <-time.After(5 * time.Millisecond):
				if c.rcvT > 0 && c.unsubT > 0 {
					c.mu.Lock()
					h := c.held
					c.held = nil
					if len(h) > 0 && !c.ended.Load() {
						// receipts of transactions have no timeout; some come late, some twice
						c.mu.Unlock()
						for _, x := range h {
							c.sendReceipt(x.id, x.final)
						}
						continue
					}
					c.mu.Unlock()
				}
			}
		}
	}()

	// the end
	er := rand.New(rand.NewSource(rng.Int63()))
	enderOver := make(chan struct{})
	at := int64(er.Intn(1 + er.Intn(1500)))
	nd := 1 + er.Intn(3)
	if c.ending == "eof" || c.ending == "error" || c.ending == "garbage" || c.ending == "cut" {
		c.strict = true
	}
	go func() {
		defer close(enderOver)
		if c.ending == "none" {
			return
		}
		for c.clock.Load() < at && !workersDone.Load() {
			time.Sleep(30 * time.Microsecond)
		}
		switch c.ending {
		case "disc", "must":
			var w sync.WaitGroup
			for k := 0; k < nd; k++ {
				must := c.ending == "must"
				if k > 0 && er.Intn(3) == 0 {
					must = !must
				}
				w.Add(1)
				go func() { defer w.Done(); c.disconnect(900000+k, k, must) }()
			}
			w.Wait()
		case "stops":
			c.end(er)
			time.Sleep(time.Duration(er.Intn(2000)) * time.Microsecond)
			if er.Intn(2) == 0 {
				c.disconnect(900000, 0, false)
			}
			c.disconnect(900001, 0, true)
		case "writes":
			c.end(er)
			// only a write shows it
			for k := 0; k < 200 && c.a.closeCount.Load() == 0; k++ {
				if conn.Send("/queue/probe", "", []byte("probe"), stomp.SendOpt.Header("x-tag", "probe")) != nil {
					break
				}
				time.Sleep(100 * time.Microsecond)
			}
		default:
			c.end(er)
		}
	}()

	all := []string{"C09", "C10", "C11", "C12", "C14", "C15", "C16", "C17"}
	if c.ending != "none" {
		all = []string{"C10", "C11", "C12", "C15", "C16", "C17"}
	}
	ok, _, dump := settle(func() bool { return workersDone.Load() }, &c.progress, 4*time.Second)
	if !ok {
		stuck("calls on the connection do not return", all, dump)
	} else {
		ok, _, dump = settle(func() bool {
			select {
			case <-enderOver:
				return true
			default:
				return false
			}
		}, &c.progress, 4*time.Second)
		if !ok {
			stuck("disconnecting does not return", []string{"C16", "C17"}, dump)
		}
	}
	healthy := false
	if ok && c.ending == "none" {
		healthy = true
		c.stopMsg.Store(true)
		<-noiseOver
		// everything sent so far arrives
		ok, _, dump = settle(func() bool {
			at := c.clock.Load()
			if c.quiet() != "" {
				return false
			}
			c.quietSeq = at
			return true
		}, &c.progress, 4*time.Second)
		if !ok {
			stuck("not everything has arrived although the connection is healthy: "+c.quiet(), []string{"C12", "C09", "C20"}, dump)
		} else {
			if rng.Intn(3) == 0 {
				c.strict = true
				c.ending = []string{"eof", "error", "garbage", "cut"}[rng.Intn(4)]
				c.end(er)
			} else {
				for k := 0; k < nd; k++ {
					c.disconnect(900000+k, k, false)
				}
			}
		}
	}
	// the connection is over
	if ok {
		if healthy || c.ending != "none" {
			ok, _, dump = settle(func() bool {
				if c.a.closeCount.Load() == 0 {
					return false
				}
				c.mu.Lock()
				defer c.mu.Unlock()
				for _, s := range c.subs {
					s.mu.Lock()
					cl := s.closed
					s.mu.Unlock()
					if !cl {
						return false
					}
				}
				for _, cl := range c.calls {
					if !cl.done {
						return false
					}
				}
				return true
			}, &c.progress, 4*time.Second)
			if !ok {
				stuck("the connection has ended, but it is not closed, or a subscription's channel is not, or a call does not return", []string{"C16", "C17", "C15"}, dump)
			}
		}
	}
	close(stopStats)
	statsOver.Wait()
	c.quitOne.Do(func() { close(c.quit) })
	c.stopMsg.Store(true)
	if !ok {
		c.b.Reset()
		_ = c.a.Close()
		go func() { _ = conn.MustDisconnect() }()
		return
	}
	if c.paused {
		c.b.Pause(false)
		c.b.SetInCap(0)
	}
	c.b.CloseWrite()
	<-noiseOver
	<-relOver
	<-c.peerOver
	<-c.writerOver
	c.late.Wait()
	c.judge(healthy)
	if c.failed {
		return
	}
	// leftovers
	gone := func() bool { return libGoroutines() <= base }
	for k := 0; k < 400 && !gone(); k++ {
		time.Sleep(50 * time.Microsecond)
	}
	if !gone() {
		maxT := c.rcvT + c.unsubT + c.discT
		time.Sleep(maxT)
		if ok, _, dump := settle(gone, &c.progress, 4*time.Second); !ok && dump != "watchdog" {
			c.fail([]string{"C16", "C17", "C15", "C11"}, "goroutines-left", "goroutines of the library are left after the connection has ended", dump)
		}
	}
}

// quiet says what a healthy connection still has to do.
func (c *cc) quiet() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	byKey := map[string]bool{}
	for _, w := range c.wire {
		byKey[wireKey(w.f)] = true
	}
	for _, cl := range c.calls {
		if !cl.done {
			return cl.name + " has not returned"
		}
		if cl.err == nil && cl.key != "" && !byKey[cl.key] {
			return "the frame of " + cl.name + " has not been sent"
		}
	}
	for _, s := range c.subs {
		s.mu.Lock()
		n := len(s.got)
		cl := s.closed
		s.mu.Unlock()
		if n < len(s.sent) && !cl {
			return fmt.Sprintf("subscription %s has received %d of %d messages", s.id, n, len(s.sent))
		}
	}
	if c.stats {
		st := c.conn.Stats()
		if st.WritesSent != int64(len(c.wire)-1) || st.ReadsReceived != int64(c.nIn) {
			return fmt.Sprintf("statistics say %d sent and %d received; it is %d and %d", st.WritesSent, st.ReadsReceived, len(c.wire)-1, c.nIn)
		}
	}
	return ""
}

func wireKey(f *F) string {
	switch f.Cmd {
	case "SEND", "SUBSCRIBE":
		return f.Cmd + " " + f.val("x-tag")
	case "UNSUBSCRIBE":
		return "UNSUB " + f.val("id")
	case "ACK", "NACK":
		if id, ok := f.get("id"); ok {
			return "ACK " + id
		}
		return "ACK " + f.val("message-id")
	case "BEGIN":
		return "BEGIN " + f.val("transaction")
	case "COMMIT", "ABORT":
		return "END " + f.val("transaction")
	}
	return f.Cmd
}

// judge looks at everything that was recorded.
func (c *cc) judge(healthy bool) {
	c.mu.Lock()
	calls := append([]*ccCall{}, c.calls...)
	wire := append([]ccWire{}, c.wire...)
	bad := c.badWire
	c.mu.Unlock()
	// what is accepted while the connection is ended abruptly may not arrive
	lossy := c.ending != "none" && c.ending != "disc"
	for _, d := range c.discCalls {
		if d.kind == "must-disconnect" || d.err != nil {
			lossy = true
		}
	}
	if bad != "" && (strings.Contains(bad, "malformed") || !lossy) {
		c.fail([]string{"C09", "C16", "C17"}, "wire-malformed", "what the client wrote is not a sequence of frames: "+bad, nil)
		return
	}
	byKey := map[string][]int{}
	lastDisc := -1
	for i, w := range wire {
		if i == 0 {
			continue
		}
		byKey[wireKey(w.f)] = append(byKey[wireKey(w.f)], i)
		if w.f.Cmd == "DISCONNECT" {
			lastDisc = i
		}
	}
	if lastDisc >= 0 && lastDisc != len(wire)-1 {
		c.fail([]string{"C17"}, "after-disconnect", fmt.Sprintf("the client sent %v after DISCONNECT", wire[lastDisc+1].f), nil)
		return
	}
	// calls and their frames
	claimed := map[int]bool{}
	perG := map[int][]*ccCall{}
	var unsubsOK = map[*ccSub]int{}
	sort.Slice(calls, func(i, j int) bool { return calls[i].start < calls[j].start })
	for _, cl := range calls {
		perG[cl.g] = append(perG[cl.g], cl)
		c.r.Count("conc_calls", 1)
		if cl.key == "" {
			continue
		}
		l := byKey[cl.key]
		if len(l) > 1 {
			c.fail(ccProps(cl), "frame-twice", fmt.Sprintf("%s has put %d frames on the wire", cl.name, len(l)), fmt.Sprint(wire[l[0]].f))
			return
		}
		if len(l) == 1 {
			cl.wire = l[0]
			if cl.kind == "unsubscribe" && cl.err != nil && cl.err.Error() == stomp.ErrCompletedSubscription.Error() {
				cl.wire = -1 // another call's
				continue
			}
			claimed[l[0]] = true
			f := wire[l[0]].f
			if d := cl.exp.match(f); d != "" {
				c.fail(ccProps(cl), "wrong-frame", fmt.Sprintf("%s sent %v, expected %v: %s", cl.name, f, cl.exp, d), nil)
				return
			}
			c.r.Count("conc_frames_checked", 1)
			cl.receipt = f.val("receipt")
			if cl.receipt != "" && cl.kind != "unsubscribe" && cl.kind != "disconnect" {
				if p := newID(cl.receipt, "a receipt"); p != "" {
					c.fail([]string{"C19", "C10"}, "id-reused", p, f.String())
					return
				}
			}
			if cl.kind == "subscribe" && cl.sub.s != nil {
				if cl.sub.s.Id() != f.val("id") {
					c.fail([]string{"C19", "C09"}, "sub-id", fmt.Sprintf("the subscription reports the id %q, on the wire it is %q", cl.sub.s.Id(), f.val("id")), nil)
					return
				}
				if !strings.HasPrefix(f.val("id"), "my-") {
					if p := newID(f.val("id"), "a subscription"); p != "" {
						c.fail([]string{"C19"}, "id-reused", p, f.String())
						return
					}
				}
			}
		}
	}
	for i, w := range wire {
		if i > 0 && !claimed[i] && w.f.val("x-tag") != "probe" {
			p := []string{"C09", "C16", "C17"}
			if w.f.Cmd == "UNSUBSCRIBE" {
				p = append(p, "C15")
			}
			if w.f.val("transaction") != "" {
				p = append(p, "C14")
			}
			if w.f.Cmd == "ACK" || w.f.Cmd == "NACK" {
				p = append(p, "C13")
			}
			c.fail(p, "extra-frame", fmt.Sprintf("the client sent a frame nobody asked for: %v", w.f), nil)
			return
		}
	}
	// order within each goroutine
	for _, l := range perG {
		last := -1
		for _, cl := range l {
			if cl.wire < 0 || cl.kind == "disconnect" {
				continue
			}
			if cl.wire < last {
				c.fail([]string{"C09", "C14"}, "order", fmt.Sprintf("the frame of %s is on the wire before one of an earlier call of the same goroutine", cl.name),
					fmt.Sprint(wire[cl.wire].f, " before ", wire[last].f))
				return
			}
			last = cl.wire
		}
	}
	// results
	endSeq := int64(1) << 62
	c.mu.Lock()
	if c.endSeq > 0 {
		endSeq = c.endSeq
	}
	for _, d := range c.discCalls {
		if d.start < endSeq {
			endSeq = d.start
		}
	}
	rcpt := map[string]int64{}
	for k, v := range c.rcptSeq {
		rcpt[k] = v
	}
	c.mu.Unlock()
	for _, cl := range calls {
		before := cl.end < endSeq // returned while the connection was healthy
		if cl.key != "" && cl.err == nil && cl.wire < 0 && cl.kind != "disconnect" {
			if cl.end <= c.quietSeq || before && !lossy {
				c.fail(append(ccProps(cl), "C17"), "missing-frame", fmt.Sprintf("%s returned success, but has put nothing on the wire", cl.name), nil)
				return
			}
			if cl.confirm {
				c.fail([]string{"C10", "C16", "C15"}, "success-unconfirmed", fmt.Sprintf("%s returned success, but its frame is not on the wire", cl.name), nil)
				return
			}
		}
		if cl.confirm && cl.err == nil && cl.wire >= 0 && cl.kind != "disconnect" {
			at, ok := rcpt[cl.receipt]
			if !ok || at > cl.end {
				c.fail(append(ccProps(cl), "C10", "C16"), "success-unconfirmed", fmt.Sprintf("%s returned success before the RECEIPT %q was sent", cl.name, cl.receipt), nil)
				return
			}
			c.r.Count("conc_confirmed", 1)
		}
		if before {
			switch {
			case cl.want != "":
				if cl.err == nil || cl.err.Error() != cl.want {
					c.fail(ccProps(cl), "wrong-result", fmt.Sprintf("%s returned %v, expected %q", cl.name, cl.err, cl.want), nil)
					return
				}
			case cl.kind == "unsubscribe" && cl.err != nil && cl.err.Error() == stomp.ErrCompletedSubscription.Error():
			case cl.err == nil:
			case cl.timeout > 0 && cl.err.Error() == cl.timeText:
				if cl.t1.Sub(cl.t0) < cl.timeout {
					c.fail([]string{"C11"}, "timeout-early", fmt.Sprintf("%s timed out after %v, the timeout is %v", cl.name, cl.t1.Sub(cl.t0), cl.timeout), nil)
					return
				}
				c.r.Count("conc_timeouts", 1)
			default:
				c.fail(append(ccProps(cl), "C11"), "wrong-result", fmt.Sprintf("%s returned %v on a healthy connection", cl.name, cl.err), nil)
				return
			}
		} else if cl.err != nil && cl.timeText != "" && cl.err.Error() == cl.timeText && cl.t1.Sub(cl.t0) < cl.timeout {
			c.fail([]string{"C11"}, "timeout-early", fmt.Sprintf("%s timed out after %v, the timeout is %v", cl.name, cl.t1.Sub(cl.t0), cl.timeout), nil)
			return
		}
		if cl.kind == "unsubscribe" && cl.err == nil {
			unsubsOK[cl.sub]++
		}
	}
	// transactions
	open := map[string]int{}
	for i, w := range wire {
		if i == 0 {
			continue
		}
		tx, has := w.f.get("transaction")
		switch w.f.Cmd {
		case "BEGIN":
			if open[tx] != 0 {
				c.fail([]string{"C14", "C19"}, "begin-twice", "the transaction id was used before: "+tx, nil)
				return
			}
			open[tx] = 1
		case "COMMIT", "ABORT":
			if open[tx] != 1 {
				c.fail([]string{"C14"}, "end-outside", fmt.Sprintf("%v without an open transaction", w.f), nil)
				return
			}
			open[tx] = 2
			c.r.Count("conc_transactions", 1)
		default:
			if has && open[tx] != 1 {
				c.fail([]string{"C14"}, "frame-outside", fmt.Sprintf("%v outside of its transaction", w.f), nil)
				return
			}
		}
	}
	// unsubscribes
	for _, s := range c.subs {
		ok, rejected, other := 0, 0, 0
		for _, u := range s.unsubs {
			switch {
			case u.err == nil:
				ok++
			case u.err.Error() == stomp.ErrCompletedSubscription.Error():
				rejected++
			default:
				other++
			}
		}
		if ok+other > 1 && healthy || ok > 1 {
			c.fail([]string{"C15"}, "unsubscribed-twice", fmt.Sprintf("%d calls of Unsubscribe on one subscription proceeded", ok+other), s.id)
			return
		}
		if len(s.unsubs) > 0 && ok+other == 0 && healthy {
			c.fail([]string{"C15"}, "unsubscribed-never", "every call of Unsubscribe on an active subscription was rejected", s.id)
			return
		}
		if len(s.unsubs) > 1 {
			c.r.Count("conc_unsubscribe_races", 1)
		}
		c.judgeSub(s, ok > 0, len(s.unsubs) > 0, healthy)
		if c.failed {
			return
		}
	}
	// disconnects
	var good, errs int
	for _, d := range c.discCalls {
		if d.kind == "must-disconnect" {
			if d.err != nil {
				c.fail([]string{"C17", "C16"}, "must-error", fmt.Sprintf("MustDisconnect returned %v", d.err), nil)
				return
			}
			if !d.closedAt {
				c.fail([]string{"C17", "C16"}, "must-open", "MustDisconnect returned, but the network connection is not closed", nil)
				return
			}
			continue
		}
		if d.err == nil {
			good++
		} else {
			errs++
			if d.err.Error() == d.timeText && d.t1.Sub(d.t0) < d.timeout {
				c.fail([]string{"C11", "C17"}, "timeout-early", fmt.Sprintf("Disconnect timed out after %v, the timeout is %v", d.t1.Sub(d.t0), d.timeout), nil)
				return
			}
		}
	}
	if lastDisc >= 0 {
		id := wire[lastDisc].f.val("receipt")
		at, sent := rcpt[id]
		if p := newID(id, "a receipt"); p != "" {
			c.fail([]string{"C19"}, "id-reused", p, nil)
			return
		}
		if len(c.discCalls) == 1 {
			d := c.discCalls[0]
			if d.err == nil && (!sent || at > d.end) {
				c.fail([]string{"C10", "C17"}, "success-unconfirmed", "Disconnect returned success before its RECEIPT was sent", nil)
				return
			}
			if d.err == nil && !d.closedAt {
				c.fail([]string{"C17"}, "open", "Disconnect returned success, but the network connection is not closed", nil)
				return
			}
		}
		c.r.Count("conc_disconnects", 1)
		// every frame whose call had succeeded before the (first) disconnect began is before it: checked as missing-frame
	} else if (c.ending == "disc" || (healthy && c.ending == "none")) && !lossy {
		c.fail([]string{"C17"}, "no-disconnect", "a graceful disconnect has not sent DISCONNECT", fmt.Sprint(good, errs))
		return
	}
	// how much was seen
	var sig strings.Builder
	for i, w := range wire {
		if i > 0 && i < 40 {
			sig.WriteString(w.f.Cmd[:2])
			if k := strings.Index(w.f.val("x-tag"), "-"); k > 0 {
				sig.WriteString(w.f.val("x-tag")[:k])
			}
		}
	}
	c.r.Eval(c.ending+"|"+sig.String(), true)
	c.r.Count("conc_histories", 1)
	c.r.Count("conc_ending_"+c.ending, 1)
}

func ccProps(cl *ccCall) []string {
	p := []string{"C09"}
	switch {
	case strings.HasPrefix(cl.kind, "tx") || cl.tx != nil:
		p = append(p, "C14")
	case cl.kind == "unsubscribe":
		p = append(p, "C15", "C10")
	case cl.kind == "disconnect":
		p = append(p, "C17")
	case cl.kind == "send-receipt":
		p = append(p, "C10")
	}
	if strings.Contains(cl.kind, "ack") {
		p = append(p, "C13")
	}
	return p
}

func (c *cc) judgeSub(s *ccSub, unsubbed, tried, healthy bool) {
	prop := []string{"C12"}
	n := 0
	var errText string
	nErr := 0
	for i, g := range s.got {
		if g.m == nil {
			c.fail(cliAll, "nil-message", "a nil message on a subscription channel", nil)
			return
		}
		if g.err != nil {
			nErr++
			errText = g.err.Error()
			if i != len(s.got)-1 {
				c.fail([]string{"C16", "C12"}, "after-error", "something was received after the error", s.id)
				return
			}
			continue
		}
		if n >= len(s.sent) {
			c.fail(prop, "extra-message", fmt.Sprintf("subscription %s got a message that was not for it, or twice: %v", s.id, g.f), nil)
			return
		}
		w := s.sent[n]
		cs := &cliSub{s: s.s, ack: s.ack}
		if d := cliContentDiff(g, w, cs, c.conn); d != "" {
			c.fail(prop, "wrong-message", fmt.Sprintf("subscription %s, message %d: %s", s.id, n, d), map[string]string{"got": g.f.String(), "sent": w.String()})
			return
		}
		n++
	}
	c.r.Count("conc_delivered", n)
	if unsubbed && nErr > 0 {
		c.fail([]string{"C15"}, "error-after-unsubscribe", "Unsubscribe returned success, but the channel gave an error: "+errText, s.id)
		return
	}
	lost := false
	for _, u := range s.unsubs {
		if u.err != nil && u.err.Error() == stomp.ErrUnsubscribeReceiptTimeout.Error() {
			lost = true
		}
	}
	if lost {
		return
	}
	all := unsubbed || healthy || (c.strict && !c.localEnd.Load())
	if all && n < len(s.sent) {
		// after the connection was asked to end nothing is promised
		if !(healthy && !c.strict && !unsubbed) {
			c.fail([]string{"C12", "C15", "C16"}, "lost-message", fmt.Sprintf("subscription %s: %d of %d messages have been delivered", s.id, n, len(s.sent)), nil)
			return
		}
	}
	if !tried && !c.localEnd.Load() {
		if nErr == 0 {
			c.fail([]string{"C16"}, "no-error", "the connection was lost, but the subscription's channel was closed without an error: "+s.id, c.ending)
			return
		}
		if c.ending == "error" && errText != c.endText {
			c.fail([]string{"C16", "C10"}, "error-text", fmt.Sprintf("the error is %q, the server sent %q", errText, c.endText), nil)
			return
		}
	}
}
