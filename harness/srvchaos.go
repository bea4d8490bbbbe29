package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

// Engine B: many clients act at the same time, nobody waits for quiescence. Every send, delivery, acknowledgement,
// receipt and connection end is logged with a global tick; the log is judged after the run.

type chaosCfg struct {
	queues, topics []string
	producers      int
	perProducer    int
	consumers      int
	subsPer        int
	modes          []string // of queue subscriptions
	batch          int      // frames per write at most
	nackPct        int
	holdPct        int // messages never acknowledged
	unsubPct       int // after a message: unsubscribe, perhaps resubscribe
	endPct         int // after a message: end the connection
	kills          int // connections ended from outside at random moments
	prodDropPct    int
	txPct          int
	rcptPct        int
	bodyMax        int
	jitter         int
	inCap          int
	lives          int
	store          bool
	sameQueue      bool
	gentle         bool // no failures, no rejections: strict order applies
	hostile        int  // clients that send garbage and invalid frames, on destinations of their own
	stallers       int  // clients that subscribe, stop reading for a while, then vanish
	selfSub        bool // producers subscribe to the topics themselves
	late           bool // consumers subscribe while producers are at it
}

type xMsg struct {
	id       string
	dest     string
	prod     *xProd
	eff      int // order in which the producer's messages take effect
	sendTick int64
	confTick int64 // 0: not confirmed
	tx       *xTx
	size     int
	del      []*xDel
	settled  int // auto deliveries, effective acks, drained
	maybe    int // acks that may have been processed
}

type xTx struct {
	id        string
	msgs      []*xMsg
	committed bool // COMMIT was written
	aborted   bool
	confirmed bool
}

type xDel struct {
	msg  *xMsg
	inc  *xInc
	mid  string
	tick int64
	ack  int64
	nack int64
	rAck bool // the receipt for the ACK came
}

func (d *xDel) key() int64 {
	if d.inc.mode == "auto" {
		return 1 << 60 // final
	}
	k := d.tick
	for _, e := range []int64{d.inc.endTick, d.inc.cl.endTick.Load()} {
		if e > 0 && e < k {
			k = e
		}
	}
	return k
}

type xInc struct {
	cl      *xCons
	id      string
	dest    string
	mode    string
	reqTick int64
	okTick  int64
	endTick int64 // UNSUBSCRIBE about to be sent
	dels    []*xDel
	watcher bool
}

type xCons struct {
	name    string
	c       *rawClient
	endTick atomic.Int64
	active  map[string]*xInc
	pending map[string]*xInc
	byMid   map[string]*xDel
	rq      []string // receipts due, in order
	rfn     map[string]func(tick int64)
	nr      int
	incs    []*xInc
	mids    map[string]bool
	bye     bool // DISCONNECT receipt seen
}

type xProd struct {
	name string
	c    *rawClient
	msgs []*xMsg
	rq   []string
	rfn  map[string]func(tick int64)
	nr   int
	neff int
	done atomic.Bool
	end  atomic.Int64
	mu   sync.Mutex
	txs  []*xTx
}

type chaos struct {
	w     *srvWorld
	r     *R
	cfg   *chaosCfg
	mu    sync.Mutex
	msgs  map[string]*xMsg
	prods []*xProd
	cons  []*xCons
	incs  []*xInc
	bad   bool
	busy  atomic.Int32
	stop  chan struct{}
	nDel  int
}

func (x *chaos) fail(key, what string, detail any) {
	x.mu.Lock()
	if x.bad {
		x.mu.Unlock()
		return
	}
	x.bad = true
	x.mu.Unlock()
	x.r.Fail(key, what, map[string]any{"detail": detail, "config": fmt.Sprintf("%+v", *x.cfg)})
}

func (x *chaos) tick() int64 { return x.w.ticks.Add(1) }

func (x *chaos) yield(rng *rand.Rand) {
	if x.w.jitter > 0 {
		x.tick() // quiesce must not mistake a pause for rest
		x.w.pause()
	} else if rng.Intn(3) == 0 {
		runtime.Gosched()
	}
}

// ---- producers

func (x *chaos) runProducer(p *xProd, rng *rand.Rand) {
	defer p.done.Store(true)
	cfg := x.cfg
	sent := 0
	die := -1
	if chance(rng, cfg.prodDropPct) {
		die = rng.Intn(cfg.perProducer + 1)
	}
	home := rng.Intn(100)
	var open *xTx
	ntx := 0
	var batch []*F
	var pre []func()
	flush := func() bool {
		if len(batch) == 0 {
			return true
		}
		for _, f := range pre {
			f()
		}
		pre = nil
		err := p.c.send(batch...)
		batch = nil
		return err == nil
	}
	add := func(f *F, onRcpt func(int64), force bool) {
		if force || chance(rng, cfg.rcptPct) {
			p.mu.Lock()
			p.nr++
			id := fmt.Sprintf("%s-%d", p.name, p.nr)
			p.rq = append(p.rq, id)
			if onRcpt != nil {
				p.rfn[id] = onRcpt
			}
			p.mu.Unlock()
			f.H = append(f.H, [2]string{"receipt", id})
		}
		batch = append(batch, f)
	}
	finishTx := func() {
		t := open
		open = nil
		if rng.Intn(3) == 0 {
			t.aborted = true
			add(mk("ABORT", "transaction", t.id), nil, false)
			return
		}
		for _, m := range t.msgs {
			m.eff = p.neff
			p.neff++
		}
		pre = append(pre, func() { t.committed = true })
		add(mk("COMMIT", "transaction", t.id), func(tk int64) {
			t.confirmed = true
			for _, m := range t.msgs {
				m.confTick = tk
			}
		}, rng.Intn(2) == 0)
	}
	for sent < cfg.perProducer {
		if sent == die {
			break
		}
		if open == nil && chance(rng, cfg.txPct) {
			ntx++
			open = &xTx{id: fmt.Sprintf("t%d", ntx%3)}
			p.txs = append(p.txs, open)
			add(mk("BEGIN", "transaction", open.id), nil, false)
		}
		var d string
		if len(cfg.topics) > 0 && (len(cfg.queues) == 0 || rng.Intn(2) == 0) {
			d = cfg.topics[rng.Intn(len(cfg.topics))]
		} else if cfg.sameQueue {
			d = cfg.queues[home%len(cfg.queues)]
		} else {
			d = cfg.queues[rng.Intn(len(cfg.queues))]
		}
		m := &xMsg{id: fmt.Sprintf("%s.%d", p.name, sent), dest: d, prod: p, size: rng.Intn(cfg.bodyMax + 1), eff: -1}
		f := mk("SEND", "destination", d, "x-id", m.id)
		f.Body = []byte(m.id + ":" + strings.Repeat("z", m.size))
		x.mu.Lock()
		x.msgs[m.id] = m
		x.mu.Unlock()
		p.msgs = append(p.msgs, m)
		sent++
		if open != nil && rng.Intn(4) != 0 {
			m.tx = open
			open.msgs = append(open.msgs, m)
			f.H = append(f.H, [2]string{"transaction", open.id})
			add(f, nil, false)
		} else {
			m.eff = p.neff
			p.neff++
			mm := m
			add(f, func(tk int64) { mm.confTick = tk }, false)
		}
		mm := m
		pre = append(pre, func() { mm.sendTick = x.tick() })
		if open != nil && len(open.msgs) > 0 && rng.Intn(4) == 0 {
			finishTx()
		}
		if len(batch) >= 1+rng.Intn(cfg.batch) {
			if !flush() {
				return
			}
			x.yield(rng)
		}
	}
	if die < 0 || rng.Intn(2) == 0 {
		if open != nil && rng.Intn(3) != 0 {
			finishTx()
		}
		flush()
	}
	if die >= 0 {
		x.yield(rng)
		p.end.Store(x.tick())
		p.c.drop(rng.Intn(3))
	}
}

func (x *chaos) producerFrames(p *xProd) {
	p.c.onFrame = func(f *F) {
		tk := x.tick()
		switch f.Cmd {
		case "CONNECTED":
		case "RECEIPT":
			p.mu.Lock()
			id := f.val("receipt-id")
			if len(p.rq) == 0 || p.rq[0] != id {
				p.mu.Unlock()
				x.fail("receipt-order", "a RECEIPT came out of order or unasked for", map[string]any{"client": p.name, "got": id, "due": tail(p.rq, 5)})
				return
			}
			p.rq = p.rq[1:]
			fn := p.rfn[id]
			delete(p.rfn, id)
			p.mu.Unlock()
			if fn != nil {
				x.mu.Lock()
				fn(tk)
				x.mu.Unlock()
			}
		case "":
		case "MESSAGE":
			if !x.cfg.selfSub || !strings.HasPrefix(f.val("subscription"), "self") {
				x.fail("no-subscription", "a MESSAGE was delivered to a client without such a subscription", map[string]any{"client": p.name, "frame": f.String()})
			}
		default:
			x.fail("unexpected-frame", "a producer that only sends valid frames got "+f.Cmd, map[string]any{"client": p.name, "frame": f.String()})
		}
	}
}

// runHostile: one client after the other sends garbage, invalid frames, valid frames on its own destinations, and vanishes.
func (x *chaos) runHostile(slot int, rng *rand.Rand) {
	dests := []string{"/queue/h", "/topic/h", "h"}
	for k := 3 + rng.Intn(6); k > 0; k-- {
		c := x.w.dial(fmt.Sprintf("h%d_%d", slot, k))
		c.gone = true // its output is not judged
		if rng.Intn(5) > 0 {
			_ = c.send(mk("CONNECT", "accept-version", []string{"1.1", "1.2", "1.0", "9"}[rng.Intn(8)%4], "host", "h"))
		}
		for n := rng.Intn(30); n > 0; n-- {
			var f *F
			d := dests[rng.Intn(3)]
			id := subIDs[rng.Intn(len(subIDs))]
			switch rng.Intn(14) {
			case 0:
				f = mk("SUBSCRIBE", "id", id, "destination", d, "ack", acks3[1+rng.Intn(3)])
			case 1:
				f = mk("SUBSCRIBE", "id", id, "destination", d, "ack", "bogus")
			case 2:
				f = mk("UNSUBSCRIBE", "id", id)
			case 3:
				f = mk("ACK", "id", fmt.Sprint(rng.Intn(6)), "message-id", fmt.Sprint(rng.Intn(6)), "subscription", id)
			case 4:
				f = mk("NACK", "id", fmt.Sprint(rng.Intn(6)), "message-id", fmt.Sprint(rng.Intn(6)), "subscription", id)
			case 5:
				f = mk([]string{"BEGIN", "COMMIT", "ABORT"}[rng.Intn(3)], "transaction", "t1")
			case 6:
				f = mk("SEND", "destination", d, "transaction", "t1").with([]byte("x"))
			case 7:
				_ = c.raw([]byte(malformedBytes[rng.Intn(len(malformedBytes))]))
				continue
			case 8:
				b := make([]byte, rng.Intn(200))
				rng.Read(b)
				_ = c.raw(b)
				continue
			case 9:
				f = mk([]string{"MESSAGE", "RECEIPT", "ERROR", "CONNECTED", "CONNECT", "STOMP", "SEND", "ACK", "DISCONNECT"}[rng.Intn(9)])
			default:
				f = mk("SEND", "destination", d).with([]byte("y"))
			}
			if rng.Intn(4) == 0 {
				f.H = append(f.H, [2]string{"receipt", "r"})
			}
			b := f.enc()
			if rng.Intn(10) == 0 {
				b = b[:rng.Intn(len(b)+1)]
			}
			_ = c.raw(b)
			x.yield(rng)
		}
		x.yield(rng)
		c.drop(rng.Intn(3))
	}
}

// runStaller subscribes to everything, stops reading, and vanishes after a while.
func (x *chaos) runStaller(slot int, rng *rand.Rand) {
	defer x.busy.Add(-1)
	c := x.newCons(fmt.Sprintf("s%d", slot))
	for i, d := range append(append([]string{}, x.cfg.queues...), x.cfg.topics...) {
		x.subscribe(c, fmt.Sprintf("%s%d", x.cfg.modes[i%len(x.cfg.modes)], i), d, x.cfg.modes[i%len(x.cfg.modes)])
	}
	time.Sleep(time.Duration(rng.Intn(100)) * time.Microsecond)
	c.c.c.SetInCap(1 + rng.Intn(200))
	c.c.c.Pause(true)
	time.Sleep(time.Duration(1+rng.Intn(20)) * time.Millisecond)
	if rng.Intn(3) == 0 {
		c.c.c.Pause(false)
		time.Sleep(time.Duration(1+rng.Intn(20)) * time.Millisecond)
	}
	how := rng.Intn(2)
	x.end(c, how)
	c.c.c.Pause(false)
	x.drainFrames(c)
}

// ---- consumers

func (x *chaos) newCons(name string) *xCons {
	c := &xCons{name: name, active: map[string]*xInc{}, pending: map[string]*xInc{}, byMid: map[string]*xDel{}, rfn: map[string]func(int64){}, mids: map[string]bool{}}
	c.c = x.w.dial(name)
	x.mu.Lock()
	x.cons = append(x.cons, c)
	x.mu.Unlock()
	c.c.version = []string{"1.1", "1.2"}[hash64(name)%2]
	_ = c.c.send(mk("CONNECT", "accept-version", c.c.version, "host", "h"))
	return c
}

func (x *chaos) sendR(c *xCons, f *F, fn func(int64)) {
	c.nr++
	id := fmt.Sprintf("%s-%d", c.name, c.nr)
	c.rq = append(c.rq, id)
	if fn != nil {
		c.rfn[id] = fn
	}
	f.H = append(f.H, [2]string{"receipt", id})
	_ = c.c.send(f)
}

func (x *chaos) subscribe(c *xCons, id, dest, mode string) *xInc {
	inc := &xInc{cl: c, id: id, dest: dest, mode: mode, reqTick: x.tick()}
	x.mu.Lock()
	x.incs = append(x.incs, inc)
	x.mu.Unlock()
	c.incs = append(c.incs, inc)
	c.pending[id] = inc
	x.sendR(c, mk("SUBSCRIBE", "id", id, "destination", dest, "ack", mode), func(tk int64) {
		inc.okTick = tk
		c.active[id] = inc
		if c.pending[id] == inc {
			delete(c.pending, id)
		}
	})
	return inc
}

// handle one frame on the consumer's own goroutine; returns what MESSAGE it was.
func (x *chaos) handle(c *xCons, g recvd) *xDel {
	f := g.F
	if c.bye {
		x.fail("after-disconnect", "a frame followed the RECEIPT for DISCONNECT", map[string]any{"client": c.name, "frame": f.String()})
		return nil
	}
	switch f.Cmd {
	case "CONNECTED":
		c.c.version = f.val("version")
	case "RECEIPT":
		id := f.val("receipt-id")
		if len(c.rq) == 0 || c.rq[0] != id {
			x.fail("receipt-order", "a RECEIPT came out of order or unasked for", map[string]any{"client": c.name, "got": id, "due": tail(c.rq, 5)})
			return nil
		}
		c.rq = c.rq[1:]
		if fn := c.rfn[id]; fn != nil {
			fn(g.Tick)
		}
	case "MESSAGE":
		x.mu.Lock()
		m := x.msgs[f.val("x-id")]
		x.nDel++
		x.mu.Unlock()
		if m == nil {
			x.fail("unknown-message", "a MESSAGE nobody sent was delivered", f.String())
			return nil
		}
		id := f.val("subscription")
		inc := c.active[id]
		if inc == nil {
			inc = c.pending[id]
		}
		if inc == nil {
			x.fail("no-subscription", "a MESSAGE was delivered under an id that is not subscribed", map[string]any{"client": c.name, "id": id, "frame": f.String()})
			return nil
		}
		if inc.dest != m.dest || f.val("destination") != m.dest {
			x.fail("wrong-destination", "a MESSAGE was delivered to a subscription of another destination", map[string]any{"client": c.name, "sub": inc.dest, "frame": f.String()})
			return nil
		}
		if string(f.Body) != m.id+":"+strings.Repeat("z", m.size) {
			x.fail("content", "the body of a delivered MESSAGE differs from what was sent", map[string]any{"client": c.name, "frame": f.String(), "want-size": m.size})
			return nil
		}
		mid := f.val("message-id")
		if c.mids[mid] {
			x.fail("message-id-reused", "a message-id was used twice on one connection", map[string]any{"client": c.name, "frame": f.String()})
			return nil
		}
		c.mids[mid] = true
		d := &xDel{msg: m, inc: inc, mid: mid, tick: g.Tick}
		if n := len(inc.dels); n > 0 && inc.mode != "auto" && isQ(inc.dest) {
			if p := inc.dels[n-1]; p.ack == 0 && p.nack == 0 {
				x.fail("two-outstanding", "a subscription got a message while another one was unacknowledged", map[string]any{"client": c.name, "sub": id, "first": p.msg.id, "second": m.id})
				return nil
			}
		}
		inc.dels = append(inc.dels, d)
		x.mu.Lock()
		m.del = append(m.del, d)
		x.mu.Unlock()
		return d
	case "":
	default:
		x.fail("unexpected-frame", "a consumer that only sends valid frames got "+f.Cmd, map[string]any{"client": c.name, "frame": f.String()})
	}
	return nil
}

func (x *chaos) end(c *xCons, how int) {
	if c.endTick.CompareAndSwap(0, x.tick()) {
		c.c.drop(how)
	}
}

func (x *chaos) ackIt(c *xCons, d *xDel, g *F, nack, rcpt bool) {
	cmd := "ACK"
	t := x.tick()
	if nack {
		cmd = "NACK"
		d.nack = t
	} else {
		d.ack = t
	}
	f := ackFrame(cmd, c.c.version, g)
	if rcpt {
		x.sendR(c, f, func(int64) { d.rAck = true })
	} else {
		_ = c.c.send(f)
	}
}

func (x *chaos) runConsumer(slot int, rng *rand.Rand) {
	cfg := x.cfg
	for life := 0; life < cfg.lives; life++ {
		if cfg.late || life > 0 {
			for k := rng.Intn(20); k > 0; k-- {
				x.yield(rng)
			}
		}
		c := x.newCons(fmt.Sprintf("c%d_%d", slot, life))
		notify := make(chan struct{}, 1)
		c.c.mu.Lock()
		c.c.onFrame = func(*F) {
			select {
			case notify <- struct{}{}:
			default:
			}
		}
		c.c.mu.Unlock()
		all := append(append([]string{}, cfg.queues...), cfg.topics...)
		newSub := func(n int) {
			d := all[rng.Intn(len(all))]
			mode := cfg.modes[rng.Intn(len(cfg.modes))]
			id := fmt.Sprintf("%s%d", mode, n)
			if c.active[id] != nil || c.pending[id] != nil {
				return
			}
			x.subscribe(c, id, d, mode)
		}
		for s := 0; s < cfg.subsPer; s++ {
			newSub(s)
		}
		killed := false
		held := map[*xInc]bool{}
		for !killed {
			fs := c.c.take()
			if len(fs) == 0 {
				if c.c.isEnded() {
					break
				}
				select {
				case <-notify:
				case <-x.stop:
					return
				case <-c.c.over():
				}
				continue
			}
			for _, g := range fs {
				d := x.handle(c, g)
				if d == nil {
					continue
				}
				inc := d.inc
				x.yield(rng)
				if isQ(inc.dest) && inc.mode != "auto" {
					switch {
					case chance(rng, cfg.holdPct):
						held[inc] = true
					case chance(rng, cfg.nackPct) && len(d.msg.del) < 6:
						x.ackIt(c, d, g.F, true, rng.Intn(4) == 0)
					default:
						x.ackIt(c, d, g.F, false, rng.Intn(4) == 0)
					}
				}
				if inc.endTick == 0 && chance(rng, cfg.unsubPct) {
					inc.endTick = x.tick()
					id := inc.id
					was := inc
					x.sendR(c, mk("UNSUBSCRIBE", "id", id), func(int64) {
						if c.active[id] == was {
							delete(c.active, id)
						}
					})
					if rng.Intn(3) > 0 { // the same id again, for some destination, without waiting
						x.subscribe(c, id, all[rng.Intn(len(all))], inc.mode)
					}
				}
				if life < cfg.lives-1 && c.endTick.Load() == 0 && chance(rng, cfg.endPct) {
					if rng.Intn(3) == 0 {
						if c.endTick.CompareAndSwap(0, x.tick()) {
							x.sendR(c, mk("DISCONNECT"), func(int64) { c.bye = true; c.c.drop(0) })
						}
					} else {
						x.end(c, rng.Intn(3))
						killed = rng.Intn(2) == 0
						if killed {
							break
						}
					}
				}
			}
		}
	}
}

// ---- run and judge

func (x *chaos) drainFrames(c *xCons) {
	for _, g := range c.c.take() {
		x.handle(c, g)
	}
}

// runChaos plays one history. stage hooks let checks look at the world at rest.
func (r *R) runChaos(rng *rand.Rand, cfg *chaosCfg, atRest func(x *chaos)) {
	r.inServer(rng, srvOpt{jitter: cfg.jitter, recorded: cfg.store}, func(w *srvWorld) {
		w.tap = true
		w.inCap = cfg.inCap
		x := &chaos{w: w, r: r, cfg: cfg, msgs: map[string]*xMsg{}, stop: make(chan struct{})}
		if w.store != nil {
			w.store.keep = cfg.store
		}
		// one watcher per topic, from before the first message to after the last
		var watch []*xCons
		for i, t := range cfg.topics {
			c := x.newCons(fmt.Sprintf("watch%d", i))
			x.subscribe(c, "w", t, "auto").watcher = true
			watch = append(watch, c)
		}
		w.quiesce()
		for _, c := range watch {
			x.drainFrames(c)
		}
		nc := cfg.consumers
		for i := 0; i < nc; i++ {
			crng := rand.New(rand.NewSource(rng.Int63()))
			go x.runConsumer(i, crng)
		}
		if !cfg.late {
			w.quiesce()
		}
		for i := 0; i < cfg.producers; i++ {
			p := &xProd{name: fmt.Sprintf("p%d", i), rfn: map[string]func(int64){}}
			p.c = w.dial(p.name)
			x.producerFrames(p)
			x.prods = append(x.prods, p)
		}
		for _, p := range x.prods {
			_ = p.c.send(mk("CONNECT", "accept-version", "1.1,1.2", "host", "h"))
		}
		for _, p := range x.prods {
			if cfg.selfSub {
				for k, t := range cfg.topics {
					_ = p.c.send(mk("SUBSCRIBE", "id", fmt.Sprint("self", k), "destination", t, "ack", "auto"))
				}
			}
		}
		for i := 0; i < cfg.stallers; i++ {
			srng := rand.New(rand.NewSource(rng.Int63()))
			x.busy.Add(1)
			go x.runStaller(i, srng)
		}
		for i := 0; i < cfg.hostile; i++ {
			hrng := rand.New(rand.NewSource(rng.Int63()))
			go x.runHostile(i, hrng)
		}
		for _, p := range x.prods {
			prng := rand.New(rand.NewSource(rng.Int63()))
			go x.runProducer(p, prng)
		}
		if cfg.kills > 0 {
			krng := rand.New(rand.NewSource(rng.Int63()))
			go func() {
				for k := 0; k < cfg.kills; k++ {
					for n := krng.Intn(30); n > 0; n-- {
						x.yield(krng)
						if w.jitter == 0 {
							runtime.Gosched()
						}
					}
					x.mu.Lock()
					var c *xCons
					var live []*xCons
					for _, y := range x.cons {
						if y.endTick.Load() == 0 && strings.HasPrefix(y.name, "c") {
							live = append(live, y)
						}
					}
					if len(live) > 0 {
						c = live[krng.Intn(len(live))]
					}
					x.mu.Unlock()
					if c != nil {
						x.end(c, krng.Intn(3))
					}
				}
			}()
		}
		for x.busy.Load() > 0 {
			time.Sleep(10 * time.Millisecond)
		}
		w.quiesce()
		x.judge(rng, watch, atRest)
	})
}

func (x *chaos) judge(rng *rand.Rand, watch []*xCons, atRest func(x *chaos)) {
	w, r, cfg := x.w, x.r, x.cfg
	if x.bad {
		return
	}
	stalled := func(what string, d any) {
		x.fail("stall", what, map[string]any{"detail": d, "goroutines": stompStates()})
	}
	for _, p := range x.prods {
		if !p.done.Load() {
			stalled("the server stopped reading from a client although every client reads or has disconnected", p.name)
			return
		}
		if p.end.Load() == 0 && len(p.rq) > 0 {
			stalled("frames of a producer were never processed", map[string]any{"client": p.name, "receipts missing": len(p.rq), "first": p.rq[0]})
			return
		}
		if p.end.Load() == 0 && p.c.isEnded() {
			x.fail("dropped", "the server closed the connection of a well-behaved client", p.name)
			return
		}
	}
	quiet := x.tick()
	for _, c := range watch {
		x.drainFrames(c)
	}
	for _, c := range x.cons {
		if c.endTick.Load() == 0 {
			if len(c.rq) > 0 {
				stalled("frames of a consumer were never processed", map[string]any{"client": c.name, "receipts missing": c.rq})
				return
			}
			if c.c.isEnded() {
				x.fail("dropped", "the server closed the connection of a well-behaved client", c.name)
				return
			}
		} else if c.c.srv.closeCount.Load() == 0 {
			x.fail("not-closed", "the server did not close its side of a connection that had ended", map[string]any{"client": c.name, "receipts due": c.rq, "disconnected": c.bye, "reads ended": c.c.isEnded(), "unread by server": c.c.srv.Unread(), "goroutines": stompStates()})
			return
		}
	}
	for _, c := range w.clients {
		for _, p := range c.problems() {
			if !c.gone {
				x.fail("malformed-output", "the server wrote bytes that are not STOMP frames", map[string]any{"client": c.name, "problem": p})
				return
			}
		}
	}
	if atRest != nil {
		atRest(x)
	}
	// confirmed by quiescence
	for _, p := range x.prods {
		for _, m := range p.msgs {
			if p.end.Load() == 0 && m.confTick == 0 && m.sendTick != 0 && (m.tx == nil || m.tx.committed) {
				m.confTick = quiet
			}
		}
		for _, t := range p.txs {
			if p.end.Load() == 0 && t.committed {
				t.confirmed = true
			}
		}
	}
	alive := map[*xCons]bool{}
	for _, c := range x.cons {
		alive[c] = c.endTick.Load() == 0
	}
	ready := map[string]string{}
	for _, inc := range x.incs {
		if alive[inc.cl] && inc.endTick == 0 && isQ(inc.dest) {
			if n := len(inc.dels); inc.mode == "auto" || n == 0 || inc.dels[n-1].ack+inc.dels[n-1].nack > 0 {
				ready[inc.dest] = inc.cl.name + "/" + inc.id
			}
		}
	}
	// everybody goes, then a fresh consumer takes what is left
	close(x.stop)
	synctest.Wait()
	for _, c := range x.cons {
		if strings.HasPrefix(c.name, "c") {
			x.end(c, rng.Intn(3))
		}
	}
	w.quiesce()
	preDrain := x.tick()
	dc := x.newCons("drain")
	for i, q := range cfg.queues {
		x.subscribe(dc, fmt.Sprint("d", i), q, "auto")
	}
	w.quiesce()
	x.drainFrames(dc)
	for _, c := range watch {
		x.drainFrames(c)
	}
	if x.bad {
		return
	}
	if len(dc.rq) > 0 {
		stalled("a new client was not served at the end", nil)
		return
	}
	// deliveries written to consumers that did not live to read them
	unseen := 0
	for _, c := range x.cons {
		if c == dc {
			continue
		}
		ds := newDecStream(bytes.NewReader(c.c.srv.Tapped()))
		for {
			f, err := ds.next()
			if err != nil {
				break
			}
			if f.Cmd != "MESSAGE" || c.mids[f.val("message-id")] {
				continue
			}
			m := x.msgs[f.val("x-id")]
			if m == nil || !isQ(m.dest) {
				continue
			}
			unseen++
			if strings.HasPrefix(f.val("subscription"), "auto") {
				m.settled++
			}
		}
	}
	r.Count("deliveries_to_vanished_consumers", unseen)
	redel := 0
	for _, id := range sortedKeys(x.msgs) {
		m := x.msgs[id]
		// what a client receives after it has begun to leave may have been on its way for long
		sort.Slice(m.del, func(i, j int) bool { return m.del[i].key() < m.del[j].key() })
		hist := func() any {
			var h []string
			for _, d := range m.del {
				h = append(h, fmt.Sprintf("@%d to %s/%s(%s) subscribed@%d-%d ended@%d/%d ack@%d nack@%d", d.tick, d.inc.cl.name, d.inc.id, d.inc.mode, d.inc.reqTick, d.inc.okTick, d.inc.endTick, d.inc.cl.endTick.Load(), d.ack, d.nack))
			}
			return map[string]any{"message": id, "settled": m.settled, "dest": m.dest, "sent": m.sendTick, "confirmed": m.confTick, "deliveries": h, "rest": quiet, "drain": preDrain}
		}
		must := m.confTick != 0
		mustNot := m.sendTick == 0 || (m.tx != nil && !m.tx.committed)
		if m.tx != nil && m.tx.confirmed {
			must = true
		}
		if mustNot && len(m.del) > 0 {
			x.fail("tx-leak", "a message of a transaction that was never committed was delivered", hist())
			return
		}
		if !isQ(m.dest) {
			continue
		}
		sure := false
		for i, d := range m.del {
			if d.inc.mode == "auto" {
				m.settled++
			}
			if sure {
				x.fail("redelivered-acked", "an acknowledged message was delivered again", hist())
				return
			}
			if d.ack > 0 && (d.inc.endTick == 0 || d.ack < d.inc.endTick) && (d.rAck || alive[d.inc.cl]) {
				sure = true
				m.settled++
			} else if d.ack > 0 && i == len(m.del)-1 {
				m.maybe++ // the ACK must have been processed, or the message would have come back
			}
			if i+1 < len(m.del) {
				n := m.del[i+1]
				ok := d.inc.mode != "auto" && ((d.nack > 0 && d.nack < n.tick) || (d.inc.endTick > 0 && d.inc.endTick < n.tick) ||
					(d.inc.cl.endTick.Load() > 0 && d.inc.cl.endTick.Load() < n.tick))
				if !ok {
					x.fail("queue-duplicate", "a queue message was delivered again although its consumer had not given it up", hist())
					return
				}
				redel++
			}
			released := i == 0
			if i > 0 {
				p := m.del[i-1]
				e := p.inc.cl.endTick.Load()
				released = p.nack > 0 || p.inc.endTick > 0 || (e > 0 && e < quiet)
			}
			if q := ready[m.dest]; d.inc.cl == dc && q != "" && must && released {
				x.fail("queue-stuck", "a queue kept a message although subscription "+q+" was ready for it", hist())
				return
			}
		}
		if must && m.settled+m.maybe == 0 {
			x.fail("lost", "a queue message accepted by the server was neither delivered nor kept", hist())
			return
		}
		if m.settled > 1 {
			x.fail("queue-duplicate", "a queue message was settled more than once", hist())
			return
		}
	}
	r.Count("redeliveries", redel)
	x.judgeTopics(watch, alive, quiet)
	x.judgeProducers()
	if cfg.gentle {
		x.judgeOrder()
	}
	if w.store != nil && !x.bad {
		x.judgeStore()
	}
	if !x.bad {
		// when all connections are gone, so is everything that served them
		if what, d := w.leftovers(rng); what != "" {
			x.fail("leftovers", what, d)
			return
		}
	}
	nt, nx := 0, 0
	for _, p := range x.prods {
		for _, t := range p.txs {
			nt++
			if t.confirmed {
				nx++
			}
		}
	}
	ended := 0
	for _, c := range x.cons {
		if !alive[c] {
			ended++
		}
	}
	r.Count("chaos_messages", len(x.msgs))
	r.Count("chaos_deliveries", x.nDel)
	r.Count("chaos_transactions", nt)
	r.Count("chaos_transactions_committed", nx)
	r.Count("chaos_connections_ended", ended)
	r.Count("chaos_subscriptions", len(x.incs))
	r.Max("connections", len(w.clients))
	r.Eval(x.signature(), x.nDel > 0)
}

// signature identifies the interleaving: who got what in which order.
func (x *chaos) signature() string {
	var sb strings.Builder
	for _, inc := range x.incs {
		fmt.Fprintf(&sb, "%s/%s:", inc.cl.name, inc.id)
		for _, d := range inc.dels {
			sb.WriteString(d.msg.id + ",")
		}
	}
	return sb.String()
}

func (x *chaos) judgeTopics(watch []*xCons, alive map[*xCons]bool, quiet int64) {
	if x.bad {
		return
	}
	for _, wc := range watch {
		wi := wc.incs[0]
		pos := map[*xMsg]int{}
		for i, d := range wi.dels {
			if _, dup := pos[d.msg]; dup {
				x.fail("topic-duplicate", "a topic message was delivered twice to one subscription", d.msg.id)
				return
			}
			pos[d.msg] = i
		}
		for _, id := range sortedKeys(x.msgs) {
			m := x.msgs[id]
			if _, ok := pos[m]; m.dest == wi.dest && m.confTick != 0 && !ok {
				x.fail("topic-missed", "a topic message did not reach a subscription that was there all the time", m.id)
				return
			}
		}
		for i := 1; i < len(wi.dels); i++ {
			a, b := wi.dels[i-1].msg, wi.dels[i].msg
			if b.confTick != 0 && b.confTick < a.sendTick {
				x.fail("topic-order", "a topic message confirmed before another one was sent was delivered after it", a.id+" before "+b.id)
				return
			}
		}
		for _, inc := range x.incs {
			if inc.dest != wi.dest || inc.watcher || inc.okTick == 0 {
				continue
			}
			if inc.cl.name == "drain" {
				continue
			}
			var seq []string
			for _, d := range inc.dels {
				seq = append(seq, d.msg.id)
			}
			det := func() any {
				var ws []string
				for _, d := range wi.dels {
					ws = append(ws, d.msg.id)
				}
				return map[string]any{"topic": inc.dest, "subscriber": inc.cl.name + "/" + inc.id, "got": seq, "all": ws, "subscribed": []int64{inc.reqTick, inc.okTick}, "ended": []int64{inc.endTick, inc.cl.endTick.Load()}}
			}
			start := -1
			for i, d := range inc.dels {
				p, ok := pos[d.msg]
				if !ok {
					x.fail("topic-missed", "a topic message reached one subscription but not another that was there all the time", det())
					return
				}
				if i == 0 {
					start = p
				} else if p != start+i {
					x.fail("topic-order", "a topic subscription got messages out of order, twice or with a gap", det())
					return
				}
			}
			if start >= 0 {
				if m := inc.dels[0].msg; m.confTick != 0 && m.confTick < inc.reqTick {
					x.fail("topic-early", "a topic subscription got a message that had been processed before it was made", det())
					return
				}
			}
			endp := start + len(inc.dels) // first not received
			for p := len(wi.dels) - 1; p >= 0; p-- {
				m := wi.dels[p].msg
				if m.sendTick <= inc.okTick {
					continue
				}
				if start >= 0 && p < start {
					x.fail("topic-missed", "a topic subscription missed a message sent after it was confirmed", det())
					return
				}
				if (start < 0 || p >= endp) && alive[inc.cl] && inc.endTick == 0 {
					x.fail("topic-missed", "a topic subscription missed a message sent after it was confirmed", det())
					return
				}
			}
			x.r.Count("topic_windows_checked", 1)
		}
	}
}

// judgeProducers: per producer, what took effect is a prefix of what it sent, transactions being atomic, in order.
func (x *chaos) judgeProducers() {
	if x.bad {
		return
	}
	for _, p := range x.prods {
		var ms []*xMsg
		for _, m := range p.msgs {
			if m.eff >= 0 && m.sendTick != 0 {
				ms = append(ms, m)
			}
		}
		sort.Slice(ms, func(i, j int) bool { return ms[i].eff < ms[j].eff })
		gap := ""
		for _, m := range ms {
			seen := len(m.del) > 0 || m.settled > 0
			if !seen && gap == "" {
				gap = m.id
			}
			if seen && gap != "" {
				x.fail("not-prefix", "a later frame of a client took effect, an earlier one (or part of a transaction) did not", map[string]any{"missing": gap, "present": m.id})
				return
			}
		}
	}
	// per subscription, the messages of one producer come in the order they took effect (topics always; queues only if
	// nothing was put back)
	for _, inc := range x.incs {
		if isQ(inc.dest) && !x.cfg.gentle {
			continue
		}
		last := map[*xProd]*xMsg{}
		for _, d := range inc.dels {
			if l := last[d.msg.prod]; l != nil && l.eff > d.msg.eff {
				x.fail("order", "a subscription got a producer's messages out of order", map[string]any{"subscriber": inc.cl.name + "/" + inc.id, "dest": inc.dest, "first": l.id, "then": d.msg.id})
				return
			}
			last[d.msg.prod] = d.msg
		}
	}
}

// judgeOrder: without failures a message confirmed before another one was sent is delivered before it.
func (x *chaos) judgeOrder() {
	for _, inc := range x.incs {
		if x.bad {
			return
		}
		var maxSend int64
		var who *xMsg
		for _, d := range inc.dels {
			if d.msg.confTick != 0 && who != nil && d.msg.confTick < maxSend {
				x.fail("queue-order", "a message confirmed before another one was sent was delivered after it", map[string]any{"subscriber": inc.cl.name + "/" + inc.id, "late": d.msg.id, "early": who.id})
				return
			}
			if d.msg.sendTick > maxSend {
				maxSend, who = d.msg.sendTick, d.msg
			}
		}
	}
}

// judgeStore replays the storage calls (property C31).
func (x *chaos) judgeStore() {
	s := x.w.store
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.started != 1 {
		x.fail("storage-start", fmt.Sprintf("the queue storage was started %d times", s.started), nil)
		return
	}
	if s.early.Load() > 0 || s.overlap.Load() > 0 {
		x.fail("storage-serial", fmt.Sprintf("queue storage calls: %d before Start, %d overlapping", s.early.Load(), s.overlap.Load()), nil)
		return
	}
	if p := s.replay(); p != "" {
		x.fail("storage", p, nil)
		return
	}
	if n := s.stored(); n > 0 {
		x.fail("storage-left", fmt.Sprintf("%d messages were left in the storage after all queues were drained", n), nil)
	}
	x.r.Count("storage_calls", len(s.calls))
}

// libGoroutines counts goroutines running library code in this bubble.
func libGoroutines() int {
	n := 0
	me := myBubble()
	for _, g := range stompGoroutines() {
		if bubbleOf(g) == me {
			n++
		}
	}
	return n
}

func stompStates() []string {
	var res []string
	me := myBubble()
	for _, g := range stompGoroutines() {
		if bubbleOf(g) == me {
			ls := strings.Split(g, "\n")
			k := ls[0]
			for _, l := range ls[1:] {
				if strings.Contains(l, "go-stomp") && !strings.HasPrefix(l, "\t") {
					k += " < " + l
				}
			}
			if len(k) > 400 {
				k = k[:400]
			}
			res = append(res, k)
			if len(res) > 12 {
				break
			}
		}
	}
	return res
}

func bubbleOf(g string) string {
	i := strings.Index(g, "synctest bubble ")
	if i < 0 {
		return ""
	}
	s := g[i+len("synctest bubble "):]
	j := strings.IndexAny(s, ",]")
	if j < 0 {
		return ""
	}
	return s[:j]
}

func myBubble() string {
	buf := make([]byte, 4096)
	n := runtime.Stack(buf, false)
	return bubbleOf(string(buf[:n]))
}
