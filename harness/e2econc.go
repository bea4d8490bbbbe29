package harness

import (
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/server"
)

// C35, engine (b): several real clients, each with several goroutines, against one real server in real time, over memory
// or TCP. Every call and every delivery is recorded with its time; the record is judged when all is over: conservation
// and exclusive ownership of queue messages, exactly-once and order of topic messages, content. The recording adds no
// synchronisation between the goroutines of the application (the monotonic clock orders the records), so that the same
// engine also serves the race detector.

type e2Msg struct {
	*e2eMsg
	cli        *e2Cli
	start      int64 // the publishing call (send or commit) began
	end        int64 // it returned
	confirmed  int64 // the server is known to have processed it (0 = not known)
	sure       bool  // it must have been processed in the end
	unpub      bool  // in a transaction that was not committed
	txPos      int
	published  bool
	deliveries []*e2Del
}

type e2Del struct {
	sub        *e2Sub
	g          *stomp.Message
	uid        string
	at         int64
	kind       string // "", ack, nack
	start, end int64  // of the call that settles (the commit in case of a transaction)
	ok         bool   // that call succeeded
	pos        int
}

type e2Sub struct {
	cli          *e2Cli
	sub          *stomp.Subscription
	dest         string
	queue        bool
	mode         stomp.AckMode
	start, ret   int64 // of the Subscribe call
	active       int64 // a later confirmed call had returned: surely active
	unsub        int64 // Unsubscribe began
	unsubOK      bool
	got          []*e2Del
	endErr       error
	marked       atomic.Bool // a final message was received
	over         chan struct{}
	lastSettleMu sync.Mutex // guards dels that wait for a transaction
}

type e2Cli struct {
	x         *e2C
	name      string
	conn      *stomp.Conn
	version   stomp.Version
	nc        net.Conn
	abrupt    bool
	endStart  atomic.Int64
	endOK     bool // graceful disconnect succeeded
	mu        sync.Mutex
	subs      []*e2Sub
	confirms  [][2]int64 // start, end of confirmed calls
	msgs      []*e2Msg
	failures  []string
	heldForTx chan *e2Del
	wg        sync.WaitGroup // consumers
	prog      []*atomic.Int64
}

type e2C struct {
	r      *R
	t0     time.Time
	cl     []*e2Cli
	queues []string
	topics []string
	nmsg   atomic.Int64
	failed bool
	light  bool
}

func (x *e2C) now() int64 { return int64(time.Since(x.t0)) }

func (x *e2C) fail(key, what string, detail any) {
	if x.failed {
		return
	}
	x.failed = true
	x.r.Fail(key, what, detail)
}

func (r *R) e2eConcurrent(label string, n int, light bool) {
	r.Cases(label, n, func(i int, rng *rand.Rand) { r.e2eConcOne(rng, light) })
}

// failf records a call that should not have failed; whether it had an excuse is judged later.
func (c *e2Cli) failf(at int64, f string, a ...any) {
	if c.endStart.Load() != 0 { // the connection is being ended
		return
	}
	c.mu.Lock()
	c.failures = append(c.failures, fmt.Sprintf("%s at %d: ", c.name, at)+fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

func (c *e2Cli) confirm(a, b int64) {
	c.mu.Lock()
	c.confirms = append(c.confirms, [2]int64{a, b})
	c.mu.Unlock()
}

func (c *e2Cli) newMsg(rng *rand.Rand, dest string) *e2Msg {
	uid := fmt.Sprintf("m%d", c.x.nmsg.Add(1))
	return &e2Msg{e2eMsg: e2eMessage(rng, uid, dest, c.name, true), cli: c}
}

// worker is one goroutine of the application. It returns what it sent.
func (c *e2Cli) worker(rng *rand.Rand, n int, prog *atomic.Int64) (msgs []*e2Msg) {
	x := c.x
	dest := func() string {
		if rng.Intn(2) == 0 {
			return x.queues[rng.Intn(len(x.queues))]
		}
		return x.topics[rng.Intn(len(x.topics))]
	}
	var mine []*e2Sub
	for k := 0; k < n; k++ {
		prog.Add(1)
		if c.abrupt && c.endStart.Load() != 0 {
			return
		}
		switch pickW(rng, map[string]int{"send": 10, "sendr": 6, "sub": 3, "unsub": 2, "tx": 3, "yield": 3}) {
		case "yield":
			switch rng.Intn(3) {
			case 0:
				runtime.Gosched()
			default:
				time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
			}
		case "send":
			m := c.newMsg(rng, dest())
			m.start = x.now()
			err := c.conn.Send(m.dest, m.ctype, m.body, m.opts()...)
			m.end = x.now()
			m.published = true
			if err != nil {
				c.failf(m.start, "Send: %v", err)
			}
			m.sure = err == nil
			msgs = append(msgs, m)
		case "sendr":
			m := c.newMsg(rng, dest())
			m.start = x.now()
			err := c.conn.Send(m.dest, m.ctype, m.body, append(m.opts(), stomp.SendOpt.Receipt)...)
			m.end = x.now()
			m.published = true
			if err != nil {
				c.failf(m.start, "Send with receipt: %v", err)
			} else {
				m.confirmed, m.sure = m.end, true
				c.confirm(m.start, m.end)
			}
			msgs = append(msgs, m)
		case "sub":
			if len(mine) >= 3 {
				continue
			}
			s := &e2Sub{cli: c, dest: dest(), mode: []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}[rng.Intn(3)], over: make(chan struct{})}
			s.queue = isQ(s.dest)
			if c.abrupt && s.queue && s.mode == stomp.AckAuto {
				s.mode = stomp.AckClient
			}
			s.start = x.now()
			var err error
			s.sub, err = c.conn.Subscribe(s.dest, s.mode)
			if err != nil {
				c.failf(s.start, "Subscribe: %v", err)
				continue
			}
			s.ret = x.now()
			cr := rand.New(rand.NewSource(rng.Int63()))
			pg := &atomic.Int64{}
			c.mu.Lock()
			c.subs = append(c.subs, s)
			c.prog = append(c.prog, pg)
			c.mu.Unlock()
			c.wg.Add(1)
			go func() { defer c.wg.Done(); s.consume(cr, pg) }()
			mine = append(mine, s)
		case "unsub":
			if len(mine) == 0 {
				continue
			}
			k := rng.Intn(len(mine))
			s := mine[k]
			mine = append(mine[:k:k], mine[k+1:]...)
			c.unsubscribe(s)
		case "tx":
			a := x.now()
			tx, err := c.conn.BeginWithError()
			if err != nil {
				c.failf(a, "Begin: %v", err)
				continue
			}
			var ms []*e2Msg
			var ds []*e2Del
			for j := rng.Intn(5); j >= 0; j-- {
				prog.Add(1)
				var d *e2Del
				if rng.Intn(2) == 0 {
					select {
					case d = <-c.heldForTx:
					default:
					}
				}
				if d != nil {
					var err error
					if d.kind == "nack" {
						err = tx.Nack(d.g)
					} else {
						err = tx.Ack(d.g)
					}
					if err != nil {
						c.failf(a, "ack in transaction: %v", err)
					}
					ds = append(ds, d)
					continue
				}
				m := c.newMsg(rng, dest())
				o := m.opts()
				if rng.Intn(4) == 0 {
					o = append(o, stomp.SendOpt.Receipt)
				}
				if err := tx.Send(m.dest, m.ctype, m.body, o...); err != nil {
					c.failf(a, "Send in transaction: %v", err)
				}
				m.txPos = len(ms)
				ms = append(ms, m)
			}
			how := rng.Intn(6)
			b := x.now()
			for _, m := range ms {
				m.start = b
			}
			confirmed := false
			switch how {
			case 0, 1:
				err = tx.Commit()
			case 2, 3:
				err = tx.CommitWithReceipt()
				confirmed = err == nil
			case 4:
				err = tx.AbortWithReceipt()
			default:
				if rng.Intn(2) == 0 {
					err = tx.Abort()
				} // else it stays open until the connection ends
			}
			e := x.now()
			if err != nil {
				c.failf(b, "end of transaction (%d): %v", how, err)
			}
			if confirmed {
				c.confirm(b, e)
			}
			for _, m := range ms {
				m.end = e
				m.published = how < 4
				m.unpub = how >= 4
				m.sure = how < 4 && err == nil
				if confirmed {
					m.confirmed = e
				}
				msgs = append(msgs, m)
			}
			for _, d := range ds {
				d.sub.lastSettleMu.Lock()
				if how < 4 {
					d.start, d.end, d.ok = b, e, err == nil
				} else {
					d.kind = ""
				}
				d.sub.lastSettleMu.Unlock()
			}
		}
	}
	return
}

func (c *e2Cli) unsubscribe(s *e2Sub) {
	at := c.x.now()
	s.lastSettleMu.Lock()
	s.unsub = at
	s.lastSettleMu.Unlock()
	err := s.sub.Unsubscribe()
	if err != nil {
		c.failf(at, "Unsubscribe: %v", err)
		return
	}
	c.confirm(at, c.x.now())
	s.lastSettleMu.Lock()
	s.unsubOK = true
	s.lastSettleMu.Unlock()
}

// consume reads one subscription and settles what comes in various ways.
func (s *e2Sub) consume(rng *rand.Rand, prog *atomic.Int64) {
	defer close(s.over)
	x, c := s.cli.x, s.cli
	for {
		g, ok := <-s.sub.C
		if !ok {
			return
		}
		prog.Add(1)
		if g.Err != nil {
			s.endErr = g.Err
			continue
		}
		d := &e2Del{sub: s, g: g, at: x.now(), uid: g.Header.Get("uid")}
		if g.Header.Get("x-final") != "" {
			s.marked.Store(true)
		}
		s.lastSettleMu.Lock()
		d.pos = len(s.got)
		s.got = append(s.got, d)
		s.lastSettleMu.Unlock()
		if rng.Intn(10) == 0 {
			time.Sleep(time.Duration(rng.Intn(500)) * time.Microsecond)
		}
		if s.mode == stomp.AckAuto {
			continue
		}
		k := rng.Intn(20)
		if !s.queue && k < 12 {
			continue
		}
		switch {
		case k == 0: // keep it
		case k < 4: // leave it to a transaction
			d.kind = "ack"
			if rng.Intn(4) == 0 {
				d.kind = "nack"
			}
			select {
			case c.heldForTx <- d:
				continue
			default:
			}
			d.kind = ""
			fallthrough
		case k < 8:
			s.settle(d, "nack")
		default:
			s.settle(d, "ack")
		}
	}
}

func (s *e2Sub) settle(d *e2Del, kind string) {
	c := s.cli
	a := c.x.now()
	s.lastSettleMu.Lock()
	d.kind, d.start, d.end = kind, a, 1<<62 // may take effect from now on
	s.lastSettleMu.Unlock()
	var err error
	if kind == "ack" {
		err = c.conn.Ack(d.g)
	} else {
		err = c.conn.Nack(d.g)
	}
	if err != nil {
		c.failf(a, "%s: %v", kind, err)
	}
	s.lastSettleMu.Lock()
	d.end, d.ok = c.x.now(), err == nil
	s.lastSettleMu.Unlock()
}

func (r *R) e2eConcOne(rng *rand.Rand, light bool) {
	x := &e2C{r: r, t0: time.Now(), light: light}
	x.queues, x.topics = e2eDests(rng)
	tcp := rng.Intn(4) == 0
	var dial func() (net.Conn, error)
	var l net.Listener
	if tcp {
		tl, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			r.Note("no TCP: " + err.Error())
			return
		}
		l = tl
		dial = func() (net.Conn, error) { return net.Dial("tcp", tl.Addr().String()) }
	} else {
		ml := newMemListener()
		l = ml
		dr := rand.New(rand.NewSource(rng.Int63()))
		dial = func() (net.Conn, error) {
			a, b := ml.dial()
			for _, e := range []*MemConn{a, b} {
				if dr.Intn(3) == 0 {
					e.Fragment(randChunk(dr.Int63()))
				}
				if dr.Intn(4) == 0 {
					e.SetInCap(200 + dr.Intn(5000))
				}
			}
			return a, nil
		}
	}
	defer l.Close()
	srv := &server.Server{Log: nopLog{}}
	go func() { _ = srv.Serve(l) }()

	connect := func(name string, abrupt bool) *e2Cli {
		c := &e2Cli{x: x, name: name, abrupt: abrupt, heldForTx: make(chan *e2Del, 4)}
		c.version = []stomp.Version{stomp.V11, stomp.V12}[rng.Intn(2)]
		opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nopLog{}), stomp.ConnOpt.AcceptVersion(c.version), stomp.ConnOpt.MsgSendTimeout(0),
			stomp.ConnOpt.RcvReceiptTimeout(0), stomp.ConnOpt.UnsubscribeReceiptTimeout(0), stomp.ConnOpt.DisconnectReceiptTimeout(0)}
		if rng.Intn(2) == 0 {
			opts = append(opts, stomp.ConnOpt.ReadChannelCapacity(1+rng.Intn(20)), stomp.ConnOpt.WriteChannelCapacity(1+rng.Intn(20)))
		}
		if rng.Intn(2) == 0 {
			opts = append(opts, stomp.ConnOpt.WithStats())
		}
		var err error
		if tcp && !abrupt && rng.Intn(2) == 0 {
			c.conn, err = stomp.Dial("tcp", l.Addr().String(), opts...)
		} else if c.nc, err = dial(); err == nil {
			c.conn, err = stomp.Connect(c.nc, opts...)
		}
		if err != nil {
			x.fail("connect", "Connect failed: "+err.Error(), nil)
			return nil
		}
		return c
	}
	var workers []*atomic.Int64
	var wg sync.WaitGroup
	var over atomic.Bool
	var live atomic.Int64 // graceful clients that still work
	goOn := make(chan struct{})
	var final []*e2Msg
	for k := 2 + rng.Intn(4); k > 0; k-- {
		c := connect(fmt.Sprintf("c%d", k), rng.Intn(3) == 0)
		if c == nil {
			return
		}
		x.cl = append(x.cl, c)
		if !c.abrupt {
			live.Add(1)
		}
	}
	for _, c := range x.cl {
		nw := 1 + rng.Intn(4)
		res := make([][]*e2Msg, nw)
		var cw sync.WaitGroup
		done := make(chan struct{})
		for g := 0; g < nw; g++ {
			wr := rand.New(rand.NewSource(rng.Int63()))
			pg := &atomic.Int64{}
			workers = append(workers, pg)
			n := 5 + rng.Intn(30)
			cw.Add(1)
			go func() { defer cw.Done(); res[g] = c.worker(wr, n, pg) }()
		}
		go func() { cw.Wait(); close(done) }()
		er := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			if c.abrupt {
				select {
				case <-done:
				case <-time.After(time.Duration(er.Intn(20000)) * time.Microsecond):
				}
				c.endStart.Store(x.now())
				if er.Intn(3) == 0 {
					_ = c.conn.MustDisconnect()
				} else if mc, ok := c.nc.(*MemConn); ok && er.Intn(2) == 0 {
					mc.Reset()
				} else {
					_ = c.nc.Close()
				}
				<-done
			} else {
				<-done
				// the server has processed all that this client has sent when this is confirmed
				at := x.now()
				if err := c.conn.Send("/topic/nobody", "", nil, stomp.SendOpt.Receipt); err != nil {
					c.failf(at, "Send with receipt: %v", err)
				}
				live.Add(-1)
				<-goOn
				c.mu.Lock()
				subs := append([]*e2Sub{}, c.subs...)
				c.mu.Unlock()
				for _, s := range subs {
					s.lastSettleMu.Lock()
					u := s.unsub != 0
					s.lastSettleMu.Unlock()
					if !u && (s.mode == stomp.AckAuto || er.Intn(2) == 0) {
						c.unsubscribe(s)
					}
				}
				at = x.now()
				c.endStart.Store(at)
				err := c.conn.Disconnect()
				if err != nil {
					c.mu.Lock()
					c.failures = append(c.failures, fmt.Sprintf("%s at %d: Disconnect: %v", c.name, at, err))
					c.mu.Unlock()
				}
				c.endOK = err == nil
				c.confirm(at, x.now())
			}
			c.wg.Wait()
			for _, ms := range res {
				c.msgs = append(c.msgs, ms...)
			}
		}()
	}
	go func() { wg.Wait(); over.Store(true) }()
	progress := &atomic.Int64{}
	cond := func() bool {
		var n int64
		for _, w := range workers {
			n += w.Load()
		}
		for _, c := range x.cl {
			c.mu.Lock()
			for _, p := range c.prog {
				n += p.Load()
			}
			c.mu.Unlock()
		}
		progress.Store(n)
		return over.Load()
	}
	// when all graceful clients have done their work, each of their remaining topic subscriptions must receive a last message
	ok, stuck, dump := settle(func() bool { cond(); return live.Load() == 0 }, progress, 5*time.Second)
	if ok {
		var sender *e2Cli
		var wait []*e2Sub
		for _, c := range x.cl {
			if !c.abrupt {
				sender = c
				for _, s := range c.subs {
					if !s.queue && s.unsub == 0 {
						wait = append(wait, s)
					}
				}
			}
		}
		if sender != nil {
			var sent atomic.Bool
			go func() {
				for _, d := range x.topics {
					m := sender.newMsg(rng, d)
					m.header = append(m.header, [2]string{"x-final", "1"})
					m.start = x.now()
					err := sender.conn.Send(m.dest, m.ctype, m.body, append(m.opts(), stomp.SendOpt.Receipt)...)
					m.end = x.now()
					m.published = true
					if err != nil {
						sender.failf(m.start, "Send with receipt: %v", err)
					} else {
						m.confirmed, m.sure = m.end, true
						sender.confirm(m.start, m.end)
					}
					final = append(final, m)
				}
				sent.Store(true)
			}()
			missing := ""
			if ok, stuck, dump = settle(func() bool {
				cond()
				if !sent.Load() {
					missing = ""
					return false
				}
				for _, s := range wait {
					if !s.marked.Load() {
						s.lastSettleMu.Lock()
						missing = fmt.Sprintf("%s of %s to %q, received %d", s.sub.Id(), s.cli.name, s.dest, len(s.got))
						s.lastSettleMu.Unlock()
						return false
					}
				}
				return true
			}, progress, 5*time.Second); stuck && missing != "" {
				x.fail("topic-missing", "the last topic message did not come to subscription "+missing, map[string]any{"sent": fmt.Sprint(final), "topics": x.topics, "goroutines": dump})
				return
			}
			sender.msgs = final
		}
	}
	close(goOn)
	if ok {
		ok, stuck, dump = settle(cond, progress, 5*time.Second)
	}
	if stuck {
		x.fail("stuck", "calls of the clients do not return, or subscriptions do not end, although nothing happens any more", dump)
		return
	}
	if !ok {
		r.Note("watchdog: end-to-end case")
		r.Count("inconclusive_cases", 1)
		return
	}

	// what is left in the queues
	dr := connect("drain", false)
	if dr == nil {
		return
	}
	var dmu sync.Mutex
	seen := map[string]int{}
	dels := map[string][]*e2Del{}
	for _, d := range x.queues {
		s := &e2Sub{cli: dr, dest: d, mode: stomp.AckAuto, queue: true, start: x.now(), over: make(chan struct{})}
		var err error
		s.sub, err = dr.conn.Subscribe(d, stomp.AckAuto)
		if err != nil {
			x.fail("drain", "Subscribe: "+err.Error(), nil)
			return
		}
		dr.subs = append(dr.subs, s)
		go func() {
			defer close(s.over)
			for g := range s.sub.C {
				if g.Err == nil {
					dd := &e2Del{sub: s, g: g, at: x.now(), uid: g.Header.Get("uid")}
					dmu.Lock()
					s.got = append(s.got, dd)
					seen[dd.uid]++
					dmu.Unlock()
					progress.Add(1)
				}
			}
		}()
	}
	msgs := map[string]*e2Msg{}
	for _, c := range x.cl {
		for _, m := range c.msgs {
			msgs[m.uid] = m
		}
		for _, s := range c.subs {
			for _, d := range s.got {
				dels[d.uid] = append(dels[d.uid], d)
			}
		}
	}
	owed := map[string]string{}
	for uid, m := range msgs {
		ds := dels[uid]
		sort.Slice(ds, func(i, j int) bool { return ds[i].at < ds[j].at })
		m.deliveries = ds
		if !isQ(m.dest) {
			continue
		}
		if len(ds) == 0 {
			if m.confirmed != 0 || (m.sure && m.cli.endOK) {
				owed[uid] = "it was sent and never delivered"
			}
			continue
		}
		last := ds[len(ds)-1]
		kept := false // by somebody, who may have seen it late
		for _, d := range ds {
			kept = kept || d.sub.mode == stomp.AckAuto || d.kind == "ack"
		}
		if !kept {
			owed[uid] = fmt.Sprintf("its last consumer, subscription %s of %s, did not acknowledge it (%q) and is gone", last.sub.sub.Id(), last.sub.cli.name, last.kind)
		}
	}
	left := ""
	ok, stuck, dump = settle(func() bool {
		dmu.Lock()
		defer dmu.Unlock()
		for uid := range owed {
			if seen[uid] == 0 {
				left = uid
				return false
			}
		}
		return true
	}, progress, 5*time.Second)
	if stuck {
		x.fail("lost", fmt.Sprintf("queue message %s to %q is lost: %s", left, msgs[left].dest, owed[left]), map[string]any{"log": x.story(msgs[left]), "goroutines": dump})
		return
	}
	if !ok {
		r.Note("watchdog: end-to-end drain")
		r.Count("inconclusive_cases", 1)
		return
	}
	discDone := make(chan error, 1)
	go func() {
		for _, s := range dr.subs {
			if err := s.sub.Unsubscribe(); err != nil {
				discDone <- err
				return
			}
		}
		discDone <- dr.conn.Disconnect()
	}()
	var derr error
	var fin atomic.Bool
	go func() { derr = <-discDone; fin.Store(true) }()
	if ok, stuck, dump = settle(fin.Load, progress, 5*time.Second); stuck {
		x.fail("stuck", "the last client cannot unsubscribe and disconnect", dump)
		return
	} else if !ok {
		r.Count("inconclusive_cases", 1)
		return
	}
	if derr != nil {
		x.fail("drain", "last client: "+derr.Error(), nil)
		return
	}
	for _, s := range dr.subs {
		<-s.over
		for _, d := range s.got {
			if m := msgs[d.uid]; m != nil {
				m.deliveries = append(m.deliveries, d)
			} else {
				x.fail("unknown-message", "a message was received that nobody sent: "+d.uid, nil)
				return
			}
		}
	}
	x.cl = append(x.cl, dr)
	x.judge(msgs)
}

func (x *e2C) story(m *e2Msg) any {
	var res []string
	res = append(res, fmt.Sprintf("%s by %s to %q: publishing call %d..%d, confirmed %d, uncommitted %v", m.uid, m.cli.name, m.dest, m.start, m.end, m.confirmed, m.unpub))
	for _, d := range m.deliveries {
		res = append(res, fmt.Sprintf("at %d to %s subscription %s (%v, started %d, unsubscribe %d, connection ended %d): %q %d..%d ok %v",
			d.at, d.sub.cli.name, d.sub.sub.Id(), d.sub.mode, d.sub.start, d.sub.unsub, d.sub.cli.endStart.Load(), d.kind, d.start, d.end, d.ok))
	}
	return res
}

// released: the earliest time from which the consumer may have lost its claim to the delivery without acknowledging it.
func (d *e2Del) released() int64 {
	res := int64(1) << 62
	min := func(t int64) {
		if t != 0 && t < res {
			res = t
		}
	}
	if d.kind == "nack" {
		min(d.start)
	}
	min(d.sub.unsub)
	min(d.sub.cli.endStart.Load())
	return res
}

// definite: when the server was known to have processed the acknowledgement.
func (d *e2Del) definite() int64 {
	res := int64(1) << 62
	if d.kind != "ack" || !d.ok {
		return res
	}
	for _, c := range d.sub.cli.confirms {
		if c[0] >= d.end && c[1] < res {
			res = c[1]
		}
	}
	return res
}

// impossible says why the deliveries of one queue message cannot have happened one after the other, each but the last
// given up by its consumer before the next. Consumers may see their deliveries late, so every order is considered.
func impossible(ds []*e2Del) (string, string) {
	if len(ds) < 2 || len(ds) > 7 {
		return "", ""
	}
	fixed, acked := 0, 0
	for _, d := range ds {
		if d.sub.mode == stomp.AckAuto && !d.sub.cli.abrupt {
			fixed++ // whoever has it in mode auto has it for good
		} else if d.definite() < d.released() {
			acked++
		}
	}
	if fixed > 1 {
		return "went to two subscriptions in mode auto", "duplicate"
	}
	used := make([]bool, len(ds))
	var try func(n int, prev *e2Del, final bool) bool
	try = func(n int, prev *e2Del, final bool) bool {
		if n == 0 {
			return true
		}
		if final {
			return false
		}
		for i, d := range ds {
			if used[i] || (prev != nil && prev.released() >= d.at) {
				continue
			}
			used[i] = true
			auto := d.sub.mode == stomp.AckAuto && !d.sub.cli.abrupt
			ok := try(n-1, d, auto || d.definite() < d.released())
			used[i] = false
			if ok {
				return true
			}
		}
		return false
	}
	if try(len(ds), nil, false) {
		return "", ""
	}
	if acked > 0 {
		return "was delivered again after it had been acknowledged", "redelivered"
	}
	return "was delivered again while its consumer still held it", "duplicate"
}

func (x *e2C) judge(msgs map[string]*e2Msg) {
	for _, c := range x.cl {
		if len(c.failures) > 0 {
			x.fail("call-failed", "a call failed on a healthy connection: "+c.failures[0], c.failures)
			return
		}
		for _, s := range c.subs {
			if s.unsubOK && s.endErr != nil {
				x.fail("unsub-error", fmt.Sprintf("subscription %s was unsubscribed and still ended with %v", s.sub.Id(), s.endErr), nil)
				return
			}
			// after the last confirmed call that began later, the subscription is surely active
			for _, k := range c.confirms {
				if k[0] > s.ret && (s.active == 0 || k[1] < s.active) {
					s.active = k[1]
				}
			}
		}
	}
	n := 0
	for _, c := range x.cl {
		for _, s := range c.subs {
			for _, d := range s.got {
				m := msgs[d.uid]
				if m == nil {
					x.fail("unknown-message", fmt.Sprintf("a message was received that nobody sent: %v %s", d.g.Header, q(d.g.Body)), nil)
					return
				}
				if df := m.diff(d.g, s.sub, c.version, c.conn); df != "" {
					x.fail("content", "message received differs from what was sent: "+df, x.story(m))
					return
				}
				if m.dest != s.dest {
					x.fail("wrong-destination", fmt.Sprintf("message to %q received on a subscription to %q", m.dest, s.dest), nil)
					return
				}
				if m.unpub || !m.published {
					x.fail("uncommitted", fmt.Sprintf("message %s of a transaction that was not committed was delivered", m.uid), x.story(m))
					return
				}
				n++
			}
			if !s.queue {
				x.judgeTopic(s, msgs)
			}
			if x.failed {
				return
			}
		}
	}
	for _, m := range msgs {
		if !isQ(m.dest) {
			continue
		}
		if bad, key := impossible(m.deliveries); bad != "" {
			x.fail(key, fmt.Sprintf("queue message %s %s", m.uid, bad), x.story(m))
			return
		}
	}
	x.judgeOrder(msgs)
	x.r.Count("e2e_conc_messages", n)
	nq := 0
	for _, m := range msgs {
		if len(m.deliveries) > 1 && isQ(m.dest) {
			nq++
		}
	}
	x.r.Count("e2e_conc_redelivered", nq)
	x.r.Eval(fmt.Sprintf("conc %d %d %d %d", len(x.cl), n, nq, x.now()), n > 0)
}

func (x *e2C) judgeTopic(s *e2Sub, msgs map[string]*e2Msg) {
	seen := map[string]int{}
	for i, d := range s.got {
		if _, dup := seen[d.uid]; dup {
			x.fail("topic-duplicate", fmt.Sprintf("topic message %s came twice to subscription %s", d.uid, s.sub.Id()), nil)
			return
		}
		seen[d.uid] = i
		m := msgs[d.uid]
		if m.confirmed != 0 && m.confirmed < s.start {
			x.fail("topic-early", fmt.Sprintf("topic message %s came to subscription %s, which did not exist yet when it was processed", d.uid, s.sub.Id()), x.story(m))
			return
		}
	}
	// no gaps: what was processed while the subscription was active and before something it received
	for _, m := range msgs {
		if m.dest != s.dest || m.unpub || !m.published || !m.sure || s.active == 0 || m.start < s.active {
			continue
		}
		if _, ok := seen[m.uid]; ok {
			continue
		}
		for _, d := range s.got {
			if before(m, msgs[d.uid]) {
				x.fail("topic-missing", fmt.Sprintf("topic message %s did not come to subscription %s, active since %d, which received %s, processed later", m.uid, s.sub.Id(), s.active, d.uid),
					[]any{x.story(m), x.story(msgs[d.uid])})
				return
			}
		}
	}
	if s.marked.Load() {
		x.r.Count("e2e_conc_complete_subs", 1)
	}
}

// before: a was surely processed before b.
func before(a, b *e2Msg) bool {
	if a.cli == b.cli && a.end < b.start && a.end != 0 {
		return true
	}
	if a.cli == b.cli && a.start == b.start && a.end == b.end {
		return a.txPos < b.txPos
	}
	return a.confirmed != 0 && a.confirmed < b.start
}

func (x *e2C) judgeOrder(msgs map[string]*e2Msg) {
	byTopic := map[string][]*e2Sub{}
	for _, c := range x.cl {
		for _, s := range c.subs {
			if s.queue {
				// first deliveries only, and only while nobody has given anything back in this queue
				continue
			}
			byTopic[s.dest] = append(byTopic[s.dest], s)
			for i, d := range s.got {
				for _, e := range s.got[i+1:] {
					if before(msgs[e.uid], msgs[d.uid]) {
						x.fail("topic-order", fmt.Sprintf("topic message %s came before %s, which was processed earlier", d.uid, e.uid), []any{x.story(msgs[d.uid]), x.story(msgs[e.uid])})
						return
					}
				}
			}
		}
	}
	for _, ss := range byTopic {
		for i, s := range ss {
			pos := map[string]int{}
			for k, d := range s.got {
				pos[d.uid] = k
			}
			for _, t := range ss[i+1:] {
				last := -1
				for _, d := range t.got {
					if k, ok := pos[d.uid]; ok {
						if k < last {
							x.fail("topic-order", fmt.Sprintf("two subscriptions (%s, %s) received topic messages in different order", s.sub.Id(), t.sub.Id()), nil)
							return
						}
						last = k
						x.r.Count("e2e_conc_common", 1)
					}
				}
			}
		}
	}
	// queues nobody ever gave anything back to: first in, first out, as far as one consumer can tell
	for _, qn := range x.queues {
		first := int64(1) << 62
		for _, c := range x.cl {
			for _, s := range c.subs {
				if s.dest != qn {
					continue
				}
				if e := c.endStart.Load(); e != 0 && e < first {
					first = e
				}
				for _, d := range s.got {
					if r := d.released(); d.kind == "nack" || s.unsub != 0 {
						if r < first {
							first = r
						}
					}
				}
				if s.unsub != 0 && s.unsub < first {
					first = s.unsub
				}
			}
		}
		for _, c := range x.cl {
			for _, s := range c.subs {
				if s.dest != qn {
					continue
				}
				for i, d := range s.got {
					if d.at > first {
						break
					}
					for _, e := range s.got[i+1:] {
						if e.at > first {
							break
						}
						x.r.Count("e2e_conc_fifo_pairs", 1)
						if before(msgs[e.uid], msgs[d.uid]) {
							x.fail("queue-order", fmt.Sprintf("queue message %s came before %s, which was sent earlier", d.uid, e.uid), []any{x.story(msgs[d.uid]), x.story(msgs[e.uid])})
							return
						}
					}
				}
			}
		}
	}
}
