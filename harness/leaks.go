package harness

import (
	"fmt"
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"testing/synctest"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
)

func init() { register("C38", checkC38) }

// What is held must depend on what is outstanding, not on what has been done: the same round of work, which ends in the
// state it began in, is done over and over, and the live heap is measured after every few hundred rounds.

const ruleLeaks = "Each case is a generated round of work (its script depends on the case only; identifiers differ from round to round) that ends " +
	"with nothing outstanding. After a warm-up the round is repeated in windows; after each window the garbage collector runs and live bytes, " +
	"live objects and the library's goroutines are counted. Growth in every window is a violation. Distinct: the operations of the script."

func checkC38(r *R) {
	r.Rule(ruleLeaks)
	r.Assume("destinations, user names and the like come from a fixed set: a queue or topic once used may be remembered")
	r.Assume("everything requested has been answered at the end of a round, possibly late; what the peer never answers stays outstanding")
	r.stallMonitor()
	r.srvSoak("server", r.N(60, 900))
	r.cliSoak("client", r.N(60, 900))
	r.Require("server_rounds", 20000)
	r.Require("client_rounds", 20000)
}

// meter takes the measurements of one case.
type meter struct {
	bytes, objects []int64
	gor            []int
}

func (m *meter) take() {
	synctest.Wait()
	var s runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&s)
	m.bytes = append(m.bytes, int64(s.HeapAlloc))
	m.objects = append(m.objects, int64(s.HeapObjects))
	m.gor = append(m.gor, libGoroutines())
}

// least is the smallest growth of any window.
func least(v []int64) int64 {
	d := v[1] - v[0]
	for i := 2; i < len(v); i++ {
		if x := v[i] - v[i-1]; x < d {
			d = x
		}
	}
	return d
}

// soak repeats round in windows of n and judges what was left.
func (r *R) soak(kind string, n, windows int, sig func() string, round func(k int) bool, settle func()) {
	k := 0
	m := &meter{}
	run := func(n int) bool {
		for i := 0; i < n; i++ {
			if !round(k) {
				return false
			}
			k++
		}
		if settle != nil {
			settle()
		}
		return true
	}
	if !run(n) {
		r.Count("soaks_cut_short", 1)
		return
	}
	m.take()
	for i := 0; i < windows; i++ {
		if !run(n) {
			r.Count("soaks_cut_short", 1)
			return
		}
		m.take()
	}
	r.Count(kind+"_rounds", k)
	db, do := least(m.bytes), least(m.objects)
	dg := int64(m.gor[1] - m.gor[0])
	for i := 2; i < len(m.gor); i++ {
		if x := int64(m.gor[i] - m.gor[i-1]); x < dg {
			dg = x
		}
	}
	r.Max(kind+"_bytes_per_1000_rounds", int(db*1000/int64(n)))
	r.Max(kind+"_objects_per_1000_rounds", int(do*1000/int64(n)))
	detail := map[string]any{"script": sig(), "rounds_per_window": n, "live_bytes": m.bytes, "live_objects": m.objects, "goroutines": m.gor}
	switch {
	case dg > 0:
		detail["states"] = stompStates()
		r.Fail(kind+"-goroutines", fmt.Sprintf("the library's goroutines grow with the work done: %v after windows of %d rounds", m.gor, n), detail)
	case db >= int64(n)*leakBytes || do*leakPer >= int64(n):
		r.Fail(kind+"-memory", fmt.Sprintf("the live heap grows with the work done: by at least %d bytes in %d objects in each of %d windows of %d rounds", db, do, windows, n), detail)
	}
	r.Eval(kind+sig(), true)
	r.Sample(kind, detail)
}

// A leak in every leakPer-th round is noticed.
const (
	leakPer   = 4
	leakBytes = 40
)

// ---- server

func (r *R) srvSoak(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		r.inServer(rng, srvOpt{heartBeat: time.Duration(rng.Intn(2)) * 10 * time.Second}, func(w *srvWorld) {
			s := &srvSoaker{w: w, r: r, seed: rng.Int63(), ops: map[string]int{}}
			s.lasting = rng.Intn(4)
			s.only = rng.Intn(3) == 0
			s.churn = rng.Intn(3)
			if s.lasting+s.churn == 0 {
				s.lasting = 1
			}
			for k := 0; k < s.lasting; k++ {
				s.clients = append(s.clients, s.newClient(fmt.Sprint("l", k), rng))
			}
			s.drain = w.client("drain", "accept-version", "1.2", "host", "h")
			r.soak("server", map[bool]int{false: 1000, true: 4000}[r.Thorough], 3, s.sig, s.round, func() { s.empty(); time.Sleep(time.Hour); synctest.Wait(); s.takeAll() })
		})
	})
}

type soakClient struct {
	*rawClient
	subs    []soakSub
	txs     []string
	unacked []*F
}

type soakSub struct{ id, dest, ack string }

type srvSoaker struct {
	w       *srvWorld
	r       *R
	seed    int64
	lasting int
	churn   int
	only    bool // the same operation again and again
	clients []*soakClient
	drain   *rawClient
	mu      sync.Mutex
	ops     map[string]int
}

func (s *srvSoaker) sig() string { return fmt.Sprint(s.lasting, s.churn, s.ops) }

func (s *srvSoaker) op(k int, name string) {
	if k == 0 {
		s.ops[name]++
	}
}

func (s *srvSoaker) newClient(name string, rng *rand.Rand) *soakClient {
	v := []string{"1.1", "1.2"}[rng.Intn(2)]
	if name == "churn" && rng.Intn(8) == 0 {
		v = "1.0" // is refused
	}
	c := s.w.dial(name)
	hb := []string{"0,0", "0,5000", "0,0"}[rng.Intn(3)]
	if v == "1.0" {
		_ = c.send(mk("CONNECT", "accept-version", v))
	} else {
		_ = c.send(mk("CONNECT", "accept-version", v, "host", "h", "heart-beat", hb, "login", "u", "passcode", "p"))
	}
	synctest.Wait()
	if fs := c.take(); len(fs) > 0 {
		c.version = fs[0].F.val("version")
	}
	return &soakClient{rawClient: c}
}

// empty consumes what is left in the queues.
func (s *srvSoaker) empty() {
	for j, d := range soakDests {
		_ = s.drain.send(mk("SUBSCRIBE", "id", strconv.Itoa(j), "destination", d, "ack", "auto"))
	}
	synctest.Wait()
	for j := range soakDests {
		_ = s.drain.send(mk("UNSUBSCRIBE", "id", strconv.Itoa(j)))
	}
	synctest.Wait()
}

func (s *srvSoaker) takeAll() {
	for _, c := range s.clients {
		c.take()
	}
	s.drain.take()
}

// forget lets go of a client whose connection is over.
func (s *srvSoaker) forget(c *soakClient) {
	s.w.mu.Lock()
	for i, x := range s.w.clients {
		if x == c.rawClient {
			s.w.clients = append(s.w.clients[:i:i], s.w.clients[i+1:]...)
			break
		}
	}
	s.w.mu.Unlock()
}

var soakDests = []string{"/queue/s1", "/queue/s2", "/topic/s1", "/topic/s2", "plain"}

func (s *srvSoaker) round(k int) bool {
	rng := rand.New(rand.NewSource(s.seed))
	id := func(p string) string { return fmt.Sprintf("%s-%08d-%d", p, k, rng.Intn(1e6)) }
	clients := append([]*soakClient{}, s.clients...)
	for j := 0; j < s.churn; j++ {
		clients = append(clients, s.newClient("churn", rng))
	}
	collect := func() {
		synctest.Wait()
		for _, c := range clients {
			for _, x := range c.take() {
				if x.F.Cmd != "MESSAGE" {
					continue
				}
				for _, b := range c.subs {
					if b.id == x.F.val("subscription") && b.ack != "auto" {
						c.unacked = append(c.unacked, x.F)
					}
				}
			}
		}
	}
	kinds := []string{"sub", "sub", "send", "send", "send", "ack", "nack", "begin", "txsend", "txack", "end", "unsub", "beat", "receipts", "sleep"}
	if s.only {
		a, b := rng.Intn(len(kinds)), rng.Intn(len(kinds))
		kinds = []string{kinds[a], kinds[b], "sub", "send"}
	}
	n := 2 + rng.Intn(12)
	for j := 0; j < n; j++ {
		c := clients[rng.Intn(len(clients))]
		what := kinds[rng.Intn(len(kinds))]
		var rcpt []string
		if rng.Intn(4) == 0 {
			rcpt = []string{"receipt", id("r")}
		}
		f := func(cmd string, kv ...string) *F { return mk(cmd, append(kv, rcpt...)...) }
		s.op(k, what)
		switch what {
		case "sub":
			if len(c.subs) > 6 {
				continue
			}
			b := soakSub{id("sub"), soakDests[rng.Intn(len(soakDests))], []string{"auto", "client", "client-individual"}[rng.Intn(3)]}
			c.subs = append(c.subs, b)
			_ = c.send(f("SUBSCRIBE", "id", b.id, "destination", b.dest, "ack", b.ack))
		case "send":
			m := f("SEND", "destination", soakDests[rng.Intn(len(soakDests))], "x", id("x"))
			m.Body = make([]byte, rng.Intn(200))
			for k := range m.Body {
				m.Body[k] = 'b'
			}
			if rng.Intn(8) == 0 {
				m.Body = nil
			}
			for x := rng.Intn(3); x >= 0; x-- {
				_ = c.send(m)
			}
		case "ack", "nack", "txack":
			collect()
			if len(c.unacked) == 0 {
				continue
			}
			x := rng.Intn(len(c.unacked))
			cmd := "ACK"
			if c.version != "1.0" && (what == "nack" || what == "txack" && rng.Intn(2) == 0) {
				cmd = "NACK"
			}
			a := ackFrame(cmd, c.version, c.unacked[x])
			if what == "txack" {
				if len(c.txs) == 0 {
					continue
				}
				a.H = append(a.H, [2]string{"transaction", c.txs[rng.Intn(len(c.txs))]})
			}
			m := c.unacked[x]
			cum := false
			for _, b := range c.subs {
				if b.id == m.val("subscription") && b.ack == "client" {
					cum = true
				}
			}
			var keep []*F
			for y, u := range c.unacked {
				if y == x || cum && y < x && u.val("subscription") == m.val("subscription") {
					continue
				}
				keep = append(keep, u)
			}
			c.unacked = keep
			_ = c.send(a)
		case "begin":
			if len(c.txs) > 3 {
				continue
			}
			t := id("tx")
			c.txs = append(c.txs, t)
			_ = c.send(f("BEGIN", "transaction", t))
		case "txsend":
			if len(c.txs) == 0 {
				continue
			}
			m := f("SEND", "destination", soakDests[rng.Intn(len(soakDests))], "transaction", c.txs[rng.Intn(len(c.txs))])
			m.Body = []byte("in a transaction")
			_ = c.send(m)
		case "end":
			if len(c.txs) == 0 {
				continue
			}
			x := rng.Intn(len(c.txs))
			_ = c.send(f([]string{"COMMIT", "ABORT"}[rng.Intn(2)], "transaction", c.txs[x]))
			c.txs = append(c.txs[:x:x], c.txs[x+1:]...)
		case "unsub":
			if len(c.subs) == 0 {
				continue
			}
			x := rng.Intn(len(c.subs))
			_ = c.send(f("UNSUBSCRIBE", "id", c.subs[x].id))
			var keep []*F
			for _, u := range c.unacked {
				if u.val("subscription") != c.subs[x].id {
					keep = append(keep, u)
				}
			}
			c.unacked = keep
			c.subs = append(c.subs[:x:x], c.subs[x+1:]...)
		case "beat":
			_ = c.raw([]byte("\n"))
		case "receipts":
			for x := 0; x < 5; x++ {
				_ = c.send(mk("SEND", "destination", "/topic/none", "receipt", id("r")))
			}
		case "sleep":
			time.Sleep(time.Duration(rng.Intn(20000)) * time.Millisecond)
		}
		if rng.Intn(2) == 0 {
			collect()
		}
	}
	collect()
	// everything outstanding ends
	for j, c := range clients {
		if j >= s.lasting {
			how := rng.Intn(6)
			s.op(k, "leave-"+strconv.Itoa(how))
			switch how {
			case 0:
				_ = c.send(mk("DISCONNECT", "receipt", id("d")))
				synctest.Wait()
				_ = c.c.Close()
			case 1:
				_ = c.send(mk("DISCONNECT"))
				synctest.Wait()
				_ = c.c.Close()
			case 2: // an error ends the connection
				_ = c.send(mk("COMMIT", "transaction", "unknown"))
				synctest.Wait()
				_ = c.c.Close()
			default:
				c.drop(how)
			}
			s.forget(c)
			continue
		}
		for _, t := range c.txs {
			_ = c.send(mk("ABORT", "transaction", t))
		}
		for _, b := range c.subs {
			_ = c.send(mk("UNSUBSCRIBE", "id", b.id))
		}
		c.txs, c.subs, c.unacked = nil, nil, nil
	}
	synctest.Wait()
	if rng.Intn(4) > 0 || k%16 == 15 {
		s.empty()
	}
	s.takeAll()
	for j, c := range s.clients {
		if c.isEnded() {
			// what a client may do must not end its connection; other checks judge that
			s.r.Count("lasting_clients_lost", 1)
			s.forget(c)
			s.clients[j] = s.newClient(fmt.Sprint("l", j), rng)
		}
	}
	return !s.drain.isEnded()
}

// ---- client

func (r *R) cliSoak(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		r.inClient(rng, func(w *srvWorld) {
			s := &cliSoaker{w: w, r: r, seed: rng.Int63(), ops: map[string]int{}, churn: rng.Intn(3) == 0, only: rng.Intn(3) == 0}
			s.beat = time.Duration(rng.Intn(2)) * 20 * time.Second
			s.stats = rng.Intn(2) == 0
			if !s.churn && !s.connect() {
				return
			}
			r.soak("client", map[bool]int{false: 1000, true: 4000}[r.Thorough], 3, s.sig, s.round, func() {
				for k := 0; k < 200; k++ { // an hour, with heart-beats
					time.Sleep(18 * time.Second)
					if s.conn != nil {
						_ = s.peer.raw([]byte("\n"))
					}
					synctest.Wait()
				}
			})
			s.end()
		})
	})
}

type cliSoaker struct {
	w     *srvWorld
	r     *R
	seed  int64
	churn bool
	only  bool
	beat  time.Duration
	stats bool
	ops   map[string]int

	conn *stomp.Conn
	a, b *MemConn
	peer *rawClient

	mu     sync.Mutex
	mute   bool // receipts are kept for later
	late   []*F
	byDest map[string][]string // the peer's subscriptions
}

func (s *cliSoaker) sig() string { return fmt.Sprint(s.churn, s.beat, s.ops) }

func (s *cliSoaker) op(k int, name string) {
	if k == 0 {
		s.ops[name]++
	}
}

const soakTimeout = 2 * time.Second

func (s *cliSoaker) connect() bool {
	s.a, s.b = memPipe()
	p := &rawClient{w: s.w, name: "peer", c: s.b, srv: s.a, overCh: make(chan struct{})}
	s.peer = p
	s.mu.Lock()
	s.byDest, s.late, s.mute = map[string][]string{}, nil, false
	s.mu.Unlock()
	p.onFrame = func(f *F) {
		if f.Cmd == "CONNECT" || f.Cmd == "STOMP" {
			_ = p.send(mk("CONNECTED", "version", "1.2", "heart-beat", "20000,20000"))
			return
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		switch f.Cmd {
		case "SUBSCRIBE":
			d := f.val("destination")
			s.byDest[d] = append(s.byDest[d], f.val("id"))
		case "UNSUBSCRIBE":
			for d, l := range s.byDest {
				for i, id := range l {
					if id == f.val("id") {
						s.byDest[d] = append(l[:i:i], l[i+1:]...)
						break
					}
				}
			}
		}
		if id, ok := f.get("receipt"); ok {
			x := mk("RECEIPT", "receipt-id", id)
			if s.mute {
				s.late = append(s.late, x)
			} else {
				_ = p.send(x)
			}
		}
	}
	go p.read()
	opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nopLog{}), stomp.ConnOpt.HeartBeat(s.beat, s.beat),
		stomp.ConnOpt.RcvReceiptTimeout(soakTimeout), stomp.ConnOpt.UnsubscribeReceiptTimeout(soakTimeout)}
	if s.stats {
		opts = append(opts, stomp.ConnOpt.WithStats())
	}
	c, err := stomp.Connect(s.a, opts...)
	if err != nil {
		return false
	}
	s.conn = c
	return true
}

func (s *cliSoaker) end() {
	if s.conn != nil {
		_ = s.conn.MustDisconnect()
		_ = s.b.Close()
		synctest.Wait()
	}
	s.conn = nil
}

func (s *cliSoaker) answer(now bool) {
	s.mu.Lock()
	l := s.late
	if now {
		s.late, s.mute = nil, false
	} else {
		s.mute = true
		l = nil
	}
	s.mu.Unlock()
	if len(l) > 0 {
		_ = s.peer.send(l...)
	}
	synctest.Wait()
}

func (s *cliSoaker) round(k int) bool {
	rng := rand.New(rand.NewSource(s.seed))
	if s.churn && !s.connect() {
		return false
	}
	c := s.conn
	var wg sync.WaitGroup
	var subs []*stomp.Subscription
	var msgs []*stomp.Message
	var txs []*stomp.Transaction
	var mu sync.Mutex
	watch := func(b *stomp.Subscription) {
		subs = append(subs, b)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for m := range b.C {
				if m.Err == nil {
					mu.Lock()
					msgs = append(msgs, m)
					mu.Unlock()
				}
			}
		}()
	}
	pick := func() *stomp.Message {
		synctest.Wait()
		mu.Lock()
		defer mu.Unlock()
		for i, m := range msgs {
			if m.Subscription.AckMode() != stomp.AckAuto {
				msgs = append(msgs[:i:i], msgs[i+1:]...)
				return m
			}
		}
		return nil
	}
	modes := []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}
	kinds := []string{"sub", "sub", "msgs", "send", "sendr", "late", "ack", "txack", "begin", "txsend", "end", "unsub", "unsub-late", "stray", "reply", "bad", "wait"}
	if s.only {
		kinds = []string{kinds[rng.Intn(len(kinds))], kinds[rng.Intn(len(kinds))], "sub"}
	}
	n := 2 + rng.Intn(10)
	for j := 0; j < n; j++ {
		what := kinds[rng.Intn(len(kinds))]
		s.op(k, what)
		switch what {
		case "sub":
			if b, err := c.Subscribe("/queue/a", modes[rng.Intn(3)]); err == nil {
				watch(b)
			}
		case "msgs":
			synctest.Wait()
			s.mu.Lock()
			ids := append([]string{}, s.byDest["/queue/a"]...)
			s.mu.Unlock()
			for x, id := range ids {
				m := mk("MESSAGE", "destination", "/queue/a", "subscription", id, "message-id", fmt.Sprintf("%08d-%d-%d", k, j, x), "ack", fmt.Sprintf("%08d-%d-%d", k, j, x))
				m.Body = make([]byte, rng.Intn(100))
				for y := range m.Body {
					m.Body[y] = 'b'
				}
				_ = s.peer.send(m)
			}
		case "send":
			for x := rng.Intn(4); x >= 0; x-- {
				_ = c.Send("/queue/a", "text/plain", []byte("hello"))
			}
		case "sendr":
			_ = c.Send("/queue/a", "text/plain", []byte("hello"), stomp.SendOpt.Receipt)
		case "late": // the confirmation comes after the timeout
			s.answer(false)
			_ = c.Send("/queue/a", "text/plain", []byte("hello"), stomp.SendOpt.Receipt)
			s.answer(true)
		case "ack":
			if m := pick(); m != nil {
				if rng.Intn(2) == 0 {
					_ = c.Ack(m)
				} else {
					_ = c.Nack(m)
				}
			}
		case "begin":
			txs = append(txs, c.Begin())
		case "txsend":
			if len(txs) > 0 {
				_ = txs[rng.Intn(len(txs))].Send("/queue/a", "", []byte("x"))
			}
		case "txack":
			if m := pick(); m != nil && len(txs) > 0 {
				_ = txs[rng.Intn(len(txs))].Ack(m)
			}
		case "end":
			if len(txs) == 0 {
				continue
			}
			t := txs[0]
			txs = txs[1:]
			switch rng.Intn(4) {
			case 0:
				_ = t.Commit()
			case 1:
				_ = t.CommitWithReceipt()
			case 2:
				_ = t.Abort()
			case 3:
				_ = t.AbortWithReceipt()
			}
		case "unsub", "unsub-late":
			if len(subs) == 0 {
				continue
			}
			b := subs[0]
			subs = subs[1:]
			if what == "unsub-late" {
				s.answer(false)
			}
			_ = b.Unsubscribe()
			s.answer(true)
		case "stray":
			_ = s.peer.send(mk("RECEIPT", "receipt-id", fmt.Sprintf("none-%08d", k)), mk("MESSAGE", "subscription", fmt.Sprintf("none-%08d", k), "message-id", "1", "destination", "/d"), mk(""))
			if len(subs) > 0 {
				_ = s.peer.send(mk("RECEIPT", "receipt-id", fmt.Sprintf("none-%08d", k)))
			}
		case "reply":
			id := fmt.Sprintf("/temp-queue/%08d-%d", k, j)
			b, err := c.Subscribe(id, stomp.AckAuto, stomp.SubscribeOpt.Header(stomp.ReplyToHeader, id))
			if err == nil {
				watch(b)
				_ = s.peer.send(mk("MESSAGE", "destination", id, "subscription", id, "message-id", "1"))
			}
		case "bad":
			if rng.Intn(2) == 0 {
				_ = c.Send("/queue/a", "", nil, stomp.SendOpt.Receipt, func(*frame.Frame) error { return errReset })
			} else {
				_, _ = c.Subscribe("/queue/a", stomp.AckAuto, func(*frame.Frame) error { return errReset })
			}
		case "wait":
			time.Sleep(time.Duration(rng.Intn(5000)) * time.Millisecond)
			_ = s.peer.raw([]byte("\n"))
		}
		if rng.Intn(2) == 0 {
			synctest.Wait()
		}
	}
	synctest.Wait()
	if s.churn {
		how := rng.Intn(6)
		s.op(k, "leave-"+strconv.Itoa(how))
		switch how {
		case 0:
			_ = c.Disconnect()
		case 1:
			_ = c.MustDisconnect()
		case 2:
			s.b.Reset()
		case 3:
			s.b.CloseWrite()
		case 4:
			_ = s.peer.send(mk("ERROR", "message", "go away"))
		case 5:
			s.answer(false)
			go func() { _ = c.Send("/queue/a", "", nil, stomp.SendOpt.Receipt) }()
			synctest.Wait()
			s.b.Reset()
		}
		synctest.Wait()
		_ = s.b.Close()
		_ = c.MustDisconnect()
		synctest.Wait()
		wg.Wait()
		s.conn = nil
		s.peer.take()
		return true
	}
	for _, b := range subs {
		_ = b.Unsubscribe()
	}
	for _, t := range txs {
		_ = t.Abort()
	}
	synctest.Wait()
	wg.Wait()
	_ = s.peer.raw([]byte("\n"))
	s.peer.take()
	return !s.peer.isEnded()
}
