package harness

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
)

// C35: this library's client against this library's server. Engine (a) runs single steps in a bubble and compares the
// state of all clients with a model whenever everything is quiescent.

const ruleE2E = "a case is one history of API calls made by real clients of one real server; it counts once per distinct sequence of " +
	"operation kinds with their outcome (version, ack mode, destination kind), and only if at least one message was received and judged; "

func init() { register("C35", checkC35) }

func checkC35(r *R) {
	r.Rule(ruleE2E)
	r.Assume("protocol version 1.0 is not offered by the server; both sides support 1.1 and 1.2")
	r.Assume("applications read from their subscriptions and acknowledge a message at most once")
	r.Assume("the server holds back further queue messages of a subscription in ack mode client until the one outstanding is settled, and does not redeliver topic messages")
	r.stallMonitor()
	r.e2eStepwise("steps", r.N(2500, 60000))
	r.e2eConcurrent("conc", r.N(500, 15000), false)
	r.e2eCrossing("crossing", r.N(200, 5000))
	r.longLives("long", "everything", r.N(4, 12))
	r.Require("e2e_crossings", 200)
	r.Require("e2e_messages", 20000)
	r.Require("e2e_acks", 1000)
	r.Require("e2e_nacks", 500)
	r.Require("e2e_commits", 300)
	r.Require("e2e_redelivered", 1000)
	r.Require("e2e_conc_messages", 5000)
}

// e2eMsg is one message an application sent.
type e2eMsg struct {
	uid    string
	dest   string
	ctype  string
	body   []byte
	header [][2]string // custom headers in the order given
	noLen  bool
	sender string
	// queue state
	deliveries int
	done       bool
}

// e2eMessage makes a random message.
func e2eMessage(rng *rand.Rand, uid, dest, sender string, big bool) *e2eMsg {
	m := &e2eMsg{uid: uid, dest: dest, sender: sender}
	switch rng.Intn(4) {
	case 0:
	case 1:
		m.ctype = "text/plain"
	case 2:
		m.ctype = "application/json;charset=utf-8"
	default:
		m.ctype = "x/" + randText(rng, 3)
	}
	m.noLen = rng.Intn(5) == 0
	n := rng.Intn(40)
	switch rng.Intn(12) {
	case 0:
		n = 0
	case 1:
		n = 4000 + rng.Intn(200)
	case 2:
		if big {
			n = rng.Intn(200000)
		}
	}
	m.body = randBody(rng, n, !m.noLen)
	for k := rng.Intn(4); k > 0; k-- {
		name := "x-" + randName(rng)
		m.header = append(m.header, [2]string{name, randText(rng, 4)})
	}
	m.header = append(m.header, [2]string{"uid", uid})
	if rng.Intn(3) == 0 { // a header given twice
		m.header = append(m.header, [2]string{"x-twice", "1"}, [2]string{"x-twice", randText(rng, 2)})
	}
	rng.Shuffle(len(m.header), func(i, j int) { m.header[i], m.header[j] = m.header[j], m.header[i] })
	return m
}

func (m *e2eMsg) opts() []func(*frame.Frame) error {
	var o []func(*frame.Frame) error
	for _, h := range m.header {
		o = append(o, stomp.SendOpt.Header(h[0], h[1]))
	}
	if m.noLen {
		o = append(o, stomp.SendOpt.NoContentLength)
	}
	return o
}

// labels of a MESSAGE that do not belong to what the application sent
var e2eLabels = map[string]bool{"destination": true, "content-type": true, "content-length": true, "message-id": true, "subscription": true, "ack": true, "id": true}

// diff compares a received message with what was sent.
func (m *e2eMsg) diff(g *stomp.Message, sub *stomp.Subscription, version stomp.Version, conn *stomp.Conn) string {
	if g.Destination != m.dest {
		return fmt.Sprintf("destination %q, sent %q", g.Destination, m.dest)
	}
	if g.ContentType != m.ctype {
		return fmt.Sprintf("content type %q, sent %q", g.ContentType, m.ctype)
	}
	if !bytes.Equal(g.Body, m.body) {
		return fmt.Sprintf("body %s, sent %s", q(g.Body), q(m.body))
	}
	if g.Subscription != sub || g.Conn != conn {
		return "Subscription or Conn of the message is not the one it was received on"
	}
	if g.Header == nil {
		return "no header"
	}
	var got [][2]string
	for i := 0; i < g.Header.Len(); i++ {
		k, v := g.Header.GetAt(i)
		if !e2eLabels[k] {
			got = append(got, [2]string{k, v})
		}
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", m.header) {
		return fmt.Sprintf("custom headers %q, sent %q", got, m.header)
	}
	if v := g.Header.Get("subscription"); v != sub.Id() {
		return fmt.Sprintf("subscription header %q on subscription %q", v, sub.Id())
	}
	if v, ok := g.Header.Contains("destination"); !ok || v != m.dest {
		return fmt.Sprintf("destination header %q, sent %q", v, m.dest)
	}
	if v, ok := g.Header.Contains("content-type"); ok != (m.ctype != "") || v != m.ctype {
		return fmt.Sprintf("content-type header %q, sent %q", v, m.ctype)
	}
	if v, ok := g.Header.Contains("content-length"); ok && v != fmt.Sprint(len(m.body)) {
		return fmt.Sprintf("content-length header %q, sent %d bytes", v, len(m.body))
	}
	if g.Header.Get("message-id") == "" {
		return "no message-id"
	}
	if version == stomp.V12 && sub.AckMode() != stomp.AckAuto && g.Header.Get("ack") == "" {
		return "no ack header although the subscription acknowledges"
	}
	if g.ShouldAck() != (sub.AckMode() != stomp.AckAuto) {
		return fmt.Sprintf("ShouldAck() = %v for ack mode %v", g.ShouldAck(), sub.AckMode())
	}
	return ""
}

// readThrough reads a copy of the message through its io.Reader or io.ByteReader side.
func readThrough(rng *rand.Rand, g *stomp.Message) []byte {
	c := *g
	if rng.Intn(2) == 0 {
		var b []byte
		for len(b) <= len(g.Body) {
			x, err := c.ReadByte()
			if err != nil {
				break
			}
			b = append(b, x)
		}
		return b
	}
	if rng.Intn(2) == 0 {
		b, _ := io.ReadAll(&c)
		return b
	}
	var b []byte
	buf := make([]byte, 1+rng.Intn(1+len(g.Body)))
	for len(b) <= len(g.Body) {
		n, err := c.Read(buf)
		b = append(b, buf[:n]...)
		if err != nil {
			break
		}
	}
	return b
}

type e2eCli struct {
	w       *e2e
	name    string
	conn    *stomp.Conn
	mc, ms  *MemConn
	version stomp.Version
	alive   bool
	subs    []*e2eSub // current ones
	txs     []*e2eTx
}

type e2eSub struct {
	cli   *e2eCli
	sub   *stomp.Subscription
	dest  string
	queue bool
	mode  stomp.AckMode

	mu     sync.Mutex
	got    []*stomp.Message
	closed bool
	end    *stomp.Message // message with Err

	seen     int
	out      *e2eMsg // outstanding queue message
	outMsg   *stomp.Message
	inTx     *e2eTx    // the transaction the outstanding message was acked or nacked in
	expTopic []*e2eMsg // due in this step
	topicGot []*stomp.Message
}

type e2eOp struct {
	kind string // send, ack, nack
	msg  *e2eMsg
	sub  *e2eSub
	ack  *e2eMsg
}

type e2eTx struct {
	tx  *stomp.Transaction
	ops []e2eOp
}

type e2eQueue struct {
	re  []*e2eMsg // went back; any of these comes before the others
	new []*e2eMsg // never delivered, in order
}

type e2e struct {
	r      *R
	w      *srvWorld
	rng    *rand.Rand
	cl     []*e2eCli
	queues map[string]*e2eQueue
	msgs   map[string]*e2eMsg
	log    []string
	sig    []string
	failed bool
	nmsg   int
	multi  bool
	judged int
	hb     time.Duration
}

func (e *e2e) fail(key, what string, detail any) {
	if e.failed {
		return
	}
	e.failed = true
	from := 0
	if len(e.log) > 80 {
		from = len(e.log) - 80
	}
	e.r.Fail(key, what, map[string]any{"detail": detail, "history": e.log[from:], "goroutines": stompStates()})
}

func (e *e2e) logf(f string, a ...any) { e.log = append(e.log, fmt.Sprintf(f, a...)) }

func (e *e2e) q(d string) *e2eQueue {
	x := e.queues[d]
	if x == nil {
		x = &e2eQueue{}
		e.queues[d] = x
	}
	return x
}

func e2eDests(rng *rand.Rand) (queues, topics []string) {
	queues = []string{"/queue/a", "/queue/" + randText(rng, 3)}
	topics = []string{"/topic/a", "/topic/" + randText(rng, 3), "plain" + randText(rng, 2)}
	return queues[:1+rng.Intn(2)], topics[:1+rng.Intn(3)]
}

// call runs one API call. It must return at once: nothing in these histories has a reason to wait.
func (e *e2e) call(what string, f func() error) error {
	e.logf("%s", what)
	var err error
	done := false
	t := time.Now()
	go func() { err = f(); done = true }()
	synctest.Wait()
	if !done {
		e.fail("call-blocked", what+" does not return although the server is idle", stompGoroutines())
		return nil
	}
	if d := time.Since(t); d != 0 {
		e.fail("call-late", fmt.Sprintf("%s took %v", what, d), nil)
	}
	if err != nil {
		e.logf("   -> %v", err)
	}
	return err
}

func (e *e2e) must(what string, f func() error) {
	if err := e.call(what, f); err != nil {
		e.fail("call-failed", fmt.Sprintf("%s failed: %v", what, err), nil)
	}
}

type e2eAuth struct{ login, passcode string }

func (a e2eAuth) Authenticate(login, passcode string) bool {
	return login == a.login && passcode == a.passcode
}

func (e *e2e) connect(auth *e2eAuth) *e2eCli {
	rng := e.rng
	c := &e2eCli{w: e, name: fmt.Sprintf("c%d", len(e.cl))}
	c.mc, c.ms = e.w.l.dial()
	if rng.Intn(3) == 0 {
		c.mc.Fragment(randChunk(rng.Int63()))
	}
	if rng.Intn(3) == 0 {
		c.ms.Fragment(randChunk(rng.Int63()))
	}
	opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nopLog{})}
	want := stomp.V12
	name := "default"
	switch rng.Intn(6) {
	case 0:
		opts, want, name = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V11)), stomp.V11, "1.1"
	case 1:
		opts, want, name = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V12)), stomp.V12, "1.2"
	case 2:
		opts, want, name = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V11, stomp.V10)), stomp.V11, "1.1,1.0"
	case 3:
		opts, want, name = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V10), stomp.ConnOpt.AcceptVersion(stomp.V11), stomp.ConnOpt.AcceptVersion(stomp.V12)), stomp.V12, "all"
	}
	if rng.Intn(3) == 0 {
		opts = append(opts, stomp.ConnOpt.UseStomp)
	}
	if auth != nil {
		opts = append(opts, stomp.ConnOpt.Login(auth.login, auth.passcode))
	}
	iv := func() time.Duration {
		return []time.Duration{0, time.Second, 5 * time.Second, time.Minute, 3 * time.Minute, time.Duration(1+rng.Intn(90000)) * time.Millisecond}[rng.Intn(6)]
	}
	if rng.Intn(3) > 0 {
		a, b := iv(), iv()
		opts = append(opts, stomp.ConnOpt.HeartBeat(a, b))
		name += fmt.Sprintf(" heart-beat %v,%v", a, b)
	}
	if rng.Intn(3) == 0 {
		opts = append(opts, stomp.ConnOpt.WithStats())
	}
	if rng.Intn(3) == 0 {
		opts = append(opts, stomp.ConnOpt.Header("x-conn", randText(rng, 3)), stomp.ConnOpt.Host("h"))
	}
	if rng.Intn(3) == 0 {
		opts = append(opts, stomp.ConnOpt.ReadChannelCapacity(1+rng.Intn(3)), stomp.ConnOpt.WriteChannelCapacity(1+rng.Intn(3)))
	}
	var hdr *frame.Header
	opts = append(opts, stomp.ConnOpt.ResponseHeaders(func(h *frame.Header) { hdr = h }))
	rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	e.must(fmt.Sprintf("%s: Connect (%s)", c.name, name), func() (err error) {
		c.conn, err = stomp.Connect(c.mc, opts...)
		return err
	})
	if e.failed {
		return nil
	}
	c.version = c.conn.Version()
	if c.version != want {
		e.fail("version", fmt.Sprintf("%s: Connect (%s) negotiated version %q, the best common one is %q", c.name, name, c.version, want), nil)
	}
	if hdr == nil || hdr.Get("version") != string(want) || c.conn.Server() == "" || hdr.Get("server") != c.conn.Server() {
		e.fail("connected", fmt.Sprintf("CONNECTED headers %v, Server() %q", hdr, c.conn.Server()), nil)
	}
	c.alive = true
	e.cl = append(e.cl, c)
	e.sig = append(e.sig, "connect "+string(want))
	return c
}

// failedConnect tries what the server must refuse; nobody else may notice.
func (e *e2e) failedConnect(auth *e2eAuth) {
	mc, _ := e.w.l.dial()
	opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nopLog{})}
	what := "version 1.0 only"
	if auth != nil && e.rng.Intn(2) == 0 {
		opts = append(opts, stomp.ConnOpt.Login(auth.login, auth.passcode+"x"))
		what = "a wrong passcode"
	} else {
		if auth != nil {
			opts = append(opts, stomp.ConnOpt.Login(auth.login, auth.passcode))
		}
		opts = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V10))
	}
	e.logf("Connect with %s", what)
	var conn *stomp.Conn
	var err error
	done := false
	go func() { conn, err = stomp.Connect(mc, opts...); done = true }()
	synctest.Wait()
	for i := 0; i < 100 && !done; i++ { // authentication failures are answered after a delay
		time.Sleep(100 * time.Millisecond)
		synctest.Wait()
	}
	if !done || err == nil || conn != nil {
		e.fail("refused", fmt.Sprintf("Connect with %s: done %v, connection %v, error %v", what, done, conn != nil, err), nil)
	}
	_ = mc.Close()
	synctest.Wait()
	e.sig = append(e.sig, "refused")
}

func (e *e2e) alive() []*e2eCli {
	var res []*e2eCli
	for _, c := range e.cl {
		if c.alive {
			res = append(res, c)
		}
	}
	return res
}

func (e *e2e) newMsg(c *e2eCli, dest string) *e2eMsg {
	e.nmsg++
	m := e2eMessage(e.rng, fmt.Sprintf("m%d", e.nmsg), dest, c.name, false)
	e.msgs[m.uid] = m
	return m
}

func (m *e2eMsg) String() string {
	return fmt.Sprintf("%s to %q (%d bytes, type %q, content-length %v)", m.uid, m.dest, len(m.body), m.ctype, !m.noLen)
}

// published: the server has processed the SEND of m.
func (e *e2e) published(m *e2eMsg) {
	if isQ(m.dest) {
		x := e.q(m.dest)
		x.new = append(x.new, m)
		return
	}
	for _, c := range e.alive() {
		for _, s := range c.subs {
			if s.dest == m.dest {
				s.expTopic = append(s.expTopic, m)
			}
		}
	}
}

// putBack: a queue message is no longer held by its consumer.
func (e *e2e) putBack(s *e2eSub) {
	x := e.q(s.dest)
	x.re = append(x.re, s.out)
	s.out, s.outMsg, s.inTx = nil, nil, nil
}

func (e *e2e) settled(s *e2eSub, kind string) {
	if s.out == nil {
		return
	}
	if kind == "ack" {
		s.out.done = true
		s.out, s.outMsg, s.inTx = nil, nil, nil
		return
	}
	e.putBack(s)
}

func (s *e2eSub) collect() {
	for {
		var g *stomp.Message
		var ok bool
		g, ok = <-s.sub.C
		s.mu.Lock()
		if !ok {
			s.closed = true
			s.mu.Unlock()
			return
		}
		if g.Err != nil {
			s.end = g
		} else {
			s.got = append(s.got, g)
		}
		s.mu.Unlock()
	}
}

// collectRead does the same through Subscription.Read.
func (s *e2eSub) collectRead() {
	for {
		g, err := s.sub.Read()
		s.mu.Lock()
		if err == stomp.ErrCompletedSubscription {
			s.closed = true
			s.mu.Unlock()
			return
		}
		if err != nil {
			s.end = &stomp.Message{Err: err}
		} else if g == nil || g.Err != nil {
			s.end = g
		} else {
			s.got = append(s.got, g)
		}
		s.mu.Unlock()
	}
}

func (e *e2e) pickHeld(c *e2eCli) *e2eSub {
	var hs []*e2eSub
	for _, s := range c.subs {
		if s.out != nil && s.inTx == nil {
			hs = append(hs, s)
		}
	}
	if len(hs) == 0 {
		return nil
	}
	return hs[e.rng.Intn(len(hs))]
}

func (c *e2eCli) dropSub(s *e2eSub) {
	for i, x := range c.subs {
		if x == s {
			c.subs = append(c.subs[:i:i], c.subs[i+1:]...)
			return
		}
	}
}

// left: the server has noticed that the client is gone.
func (e *e2e) left(c *e2eCli) {
	c.alive = false
	c.txs = nil
	for _, s := range c.subs {
		s.expTopic = nil
		if s.out != nil {
			e.putBack(s)
		}
	}
	c.subs = nil
}

func (e *e2e) step(queues, topics []string, auth *e2eAuth) {
	rng := e.rng
	al := e.alive()
	if len(al) == 0 || (len(al) < 4 && rng.Intn(12) == 0) {
		e.connect(auth)
		return
	}
	c := al[rng.Intn(len(al))]
	dest := func() string {
		if rng.Intn(2) == 0 {
			return queues[rng.Intn(len(queues))]
		}
		return topics[rng.Intn(len(topics))]
	}
	kind := pickW(rng, map[string]int{"send": 18, "sub": 10, "unsub": 4, "ack": 12, "nack": 7, "begin": 3, "txsend": 7, "txack": 5, "txnack": 3,
		"commit": 5, "abort": 2, "idle": 2, "disc": 2, "drop": 2, "refused": 1, "topicack": 3})
	kd := func(d string) string {
		if isQ(d) {
			return "queue"
		}
		return "topic"
	}
	sig := kind
	defer func() { e.sig = append(e.sig, sig) }()
	switch kind {
	case "send":
		m := e.newMsg(c, dest())
		o := m.opts()
		how := "Send"
		if rng.Intn(2) == 0 {
			o = append(o, stomp.SendOpt.Receipt)
			how = "Send with receipt"
		}
		e.must(fmt.Sprintf("%s: %s %v", c.name, how, m), func() error { return c.conn.Send(m.dest, m.ctype, m.body, o...) })
		e.published(m)
		sig = how + kd(m.dest)
	case "sub":
		if len(c.subs) >= 4 {
			return
		}
		s := &e2eSub{cli: c, dest: dest(), mode: []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}[rng.Intn(3)]}
		s.queue = isQ(s.dest)
		var o []func(*frame.Frame) error
		if rng.Intn(4) == 0 {
			o = append(o, stomp.SubscribeOpt.Id(fmt.Sprintf("my-%s-%d", randText(rng, 2), len(e.log))))
		}
		if rng.Intn(4) == 0 {
			o = append(o, stomp.SubscribeOpt.Header("x-sub", randText(rng, 2)))
		}
		e.must(fmt.Sprintf("%s: Subscribe %q %v", c.name, s.dest, s.mode), func() (err error) { s.sub, err = c.conn.Subscribe(s.dest, s.mode, o...); return err })
		if e.failed {
			return
		}
		if rng.Intn(2) == 0 {
			go s.collect()
		} else {
			go s.collectRead()
		}
		synctest.Wait()
		c.subs = append(c.subs, s)
		sig += kd(s.dest) + s.mode.String()
	case "unsub":
		if len(c.subs) == 0 {
			return
		}
		s := c.subs[rng.Intn(len(c.subs))]
		e.must(fmt.Sprintf("%s: Unsubscribe %q id %s", c.name, s.dest, s.sub.Id()), func() error { return s.sub.Unsubscribe() })
		s.mu.Lock()
		if !s.closed || s.end != nil {
			e.fail("unsubscribe", fmt.Sprintf("after Unsubscribe: channel closed %v, error %v", s.closed, s.end), nil)
		}
		s.mu.Unlock()
		e.receive(s) // what came with it was still delivered
		c.dropSub(s)
		sig += kd(s.dest) + s.mode.String() + fmt.Sprint(s.out != nil)
		if s.out != nil {
			e.putBack(s)
		}
	case "ack", "nack":
		s := e.pickHeld(c)
		if s == nil {
			return
		}
		m := s.outMsg
		if kind == "ack" {
			e.must(fmt.Sprintf("%s: Ack %s", c.name, s.out.uid), func() error { return c.conn.Ack(m) })
			e.r.Count("e2e_acks", 1)
		} else {
			e.must(fmt.Sprintf("%s: Nack %s", c.name, s.out.uid), func() error { return c.conn.Nack(m) })
			e.r.Count("e2e_nacks", 1)
		}
		sig += string(c.version) + s.mode.String()
		e.settled(s, kind)
	case "topicack": // of no consequence, but must not hurt
		var hs []*e2eSub
		for _, s := range c.subs {
			if !s.queue && len(s.topicGot) > 0 {
				hs = append(hs, s)
			}
		}
		if len(hs) == 0 {
			return
		}
		s := hs[rng.Intn(len(hs))]
		m := s.topicGot[len(s.topicGot)-1]
		s.topicGot = nil
		if rng.Intn(3) == 0 && s.mode != stomp.AckAuto {
			e.must(fmt.Sprintf("%s: Nack topic message", c.name), func() error { return c.conn.Nack(m) })
		} else {
			e.must(fmt.Sprintf("%s: Ack topic message", c.name), func() error { return c.conn.Ack(m) })
		}
		sig += s.mode.String()
	case "begin":
		if len(c.txs) >= 3 {
			return
		}
		t := &e2eTx{}
		e.must(c.name+": Begin", func() (err error) { t.tx, err = c.conn.BeginWithError(); return err })
		c.txs = append(c.txs, t)
	case "txsend":
		if len(c.txs) == 0 {
			return
		}
		t := c.txs[rng.Intn(len(c.txs))]
		m := e.newMsg(c, dest())
		o := m.opts()
		if rng.Intn(3) == 0 {
			o = append(o, stomp.SendOpt.Receipt)
		}
		e.must(fmt.Sprintf("%s: tx %s Send %v", c.name, t.tx.Id(), m), func() error { return t.tx.Send(m.dest, m.ctype, m.body, o...) })
		t.ops = append(t.ops, e2eOp{kind: "send", msg: m})
		sig += kd(m.dest)
	case "txack", "txnack":
		s := e.pickHeld(c)
		if s == nil || len(c.txs) == 0 {
			return
		}
		t := c.txs[rng.Intn(len(c.txs))]
		m := s.outMsg
		if kind == "txack" {
			e.must(fmt.Sprintf("%s: tx %s Ack %s", c.name, t.tx.Id(), s.out.uid), func() error { return t.tx.Ack(m) })
		} else {
			e.must(fmt.Sprintf("%s: tx %s Nack %s", c.name, t.tx.Id(), s.out.uid), func() error { return t.tx.Nack(m) })
		}
		s.inTx = t
		t.ops = append(t.ops, e2eOp{kind: kind[2:], sub: s, ack: s.out})
		sig += string(c.version) + s.mode.String()
	case "commit", "abort":
		if len(c.txs) == 0 {
			return
		}
		k := rng.Intn(len(c.txs))
		t := c.txs[k]
		c.txs = append(c.txs[:k:k], c.txs[k+1:]...)
		f, how := t.tx.Commit, "Commit"
		switch {
		case kind == "commit" && rng.Intn(2) == 0:
			f, how = t.tx.CommitWithReceipt, "CommitWithReceipt"
		case kind == "abort" && rng.Intn(2) == 0:
			f, how = t.tx.Abort, "Abort"
		case kind == "abort":
			f, how = t.tx.AbortWithReceipt, "AbortWithReceipt"
		}
		e.must(fmt.Sprintf("%s: tx %s %s", c.name, t.tx.Id(), how), f)
		sig = how
		e.multi = len(t.ops) > 1
		for _, op := range t.ops {
			sig += op.kind[:1]
			if kind == "abort" {
				if op.sub != nil && op.sub.inTx == t {
					op.sub.inTx = nil
				}
				continue
			}
			switch {
			case op.kind == "send":
				e.published(op.msg)
			case op.sub.inTx == t && op.sub.out == op.ack:
				e.settled(op.sub, op.kind)
			}
		}
		if kind == "commit" {
			e.r.Count("e2e_commits", 1)
		}
	case "idle":
		d := time.Duration(1+rng.Intn(600)) * time.Second
		e.logf("idle for %v", d)
		time.Sleep(d)
		synctest.Wait()
		for _, x := range e.alive() {
			m := e.newMsg(x, "/topic/nobody")
			e.must(x.name+": Send with receipt after idle time", func() error {
				return x.conn.Send(m.dest, m.ctype, m.body, append(m.opts(), stomp.SendOpt.Receipt)...)
			})
		}
	case "disc":
		e.must(c.name+": Disconnect", c.conn.Disconnect)
		e.checkGone(c)
		e.left(c)
	case "drop":
		how := rng.Intn(3)
		e.logf("%s: connection dropped (%d)", c.name, how)
		switch how {
		case 0:
			_ = c.conn.MustDisconnect()
		case 1:
			c.mc.Reset()
		default:
			_ = c.mc.Close()
		}
		synctest.Wait()
		e.checkGone(c)
		e.left(c)
	case "refused":
		e.failedConnect(auth)
	}
}

// checkGone: the connection is over on both sides and its subscriptions have ended.
func (e *e2e) checkGone(c *e2eCli) {
	if c.ms.closeCount.Load() == 0 {
		e.fail("server-close", "the server did not close its side of a connection that had ended", c.name)
	}
	if c.mc.closeCount.Load() == 0 {
		e.fail("client-close", "the client did not close its side of a connection that had ended", c.name)
	}
	for _, s := range c.subs {
		s.mu.Lock()
		if !s.closed {
			e.fail("sub-open", "the channel of a subscription is open after its connection has ended", c.name)
		}
		s.mu.Unlock()
	}
	if err := e.call(c.name+": Send on the ended connection", func() error { return c.conn.Send("/topic/nobody", "", nil) }); err == nil {
		e.fail("send-after-end", "Send succeeded on a connection that had ended", c.name)
	}
}

// receive judges what came for one subscription since the last time.
func (e *e2e) receive(s *e2eSub) (fresh []*e2eMsg) {
	s.mu.Lock()
	gs := append([]*stomp.Message{}, s.got[s.seen:]...)
	s.seen = len(s.got)
	s.mu.Unlock()
	for _, g := range gs {
		uid := g.Header.Get("uid")
		m := e.msgs[uid]
		e.logf("   %s %q %s received %s", s.cli.name, s.dest, s.sub.Id(), uid)
		if m == nil {
			e.fail("unknown-message", fmt.Sprintf("a message was received that nobody sent: %v %s", g.Header, q(g.Body)), nil)
			return
		}
		if d := m.diff(g, s.sub, s.cli.version, s.cli.conn); d != "" {
			e.fail("content", "message received differs from what was sent: "+d, nil)
			return
		}
		if m.dest != s.dest {
			e.fail("wrong-destination", fmt.Sprintf("message to %q received on a subscription to %q", m.dest, s.dest), nil)
			return
		}
		if e.rng.Intn(4) == 0 {
			if b := readThrough(e.rng, g); !bytes.Equal(b, m.body) {
				e.fail("message-read", fmt.Sprintf("reading the message gives %s, its body is %s", q(b), q(m.body)), nil)
			}
		}
		e.judged++
		if s.queue {
			if s.mode != stomp.AckAuto {
				if s.out != nil {
					e.fail("two-outstanding", fmt.Sprintf("%s was delivered while %s is not acknowledged", uid, s.out.uid), nil)
					return
				}
				s.out, s.outMsg = m, g
			}
			fresh = append(fresh, m)
			continue
		}
		if len(s.expTopic) == 0 || s.expTopic[0] != m {
			e.fail("topic-unexpected", fmt.Sprintf("topic message %s was received, expected %v", uid, s.expTopic), nil)
			return
		}
		s.expTopic = s.expTopic[1:]
		s.topicGot = append(s.topicGot, g)
	}
	return fresh
}

// verify compares the quiescent state with the model.
func (e *e2e) verify() {
	synctest.Wait()
	fresh := map[string][]*e2eMsg{}
	old := map[string]map[*e2eMsg]bool{}
	for d, x := range e.queues {
		old[d] = map[*e2eMsg]bool{}
		for _, m := range x.re {
			old[d][m] = true
		}
	}
	for _, c := range e.alive() {
		if c.mc.closeCount.Load() != 0 || c.ms.closeCount.Load() != 0 {
			e.fail("conn-ended", "the connection of "+c.name+" ended without a reason", nil)
			return
		}
		for _, s := range c.subs {
			last := -1
			for _, m := range e.receive(s) {
				fresh[s.dest] = append(fresh[s.dest], m)
				if m.deliveries == 0 {
					k := indexOf(e.q(s.dest).new, m)
					if k < last {
						e.fail("queue-order", fmt.Sprintf("queue messages reached one consumer out of order (%s)", m.uid), nil)
					}
					last = k
				}
			}
			s.mu.Lock()
			cl := s.closed
			s.mu.Unlock()
			if cl {
				e.fail("sub-closed", "a subscription ended without a reason", nil)
			}
			if len(s.expTopic) > 0 {
				e.fail("topic-missing", fmt.Sprintf("topic message %v was not received by %s subscription %s", s.expTopic[0], c.name, s.sub.Id()), nil)
			}
			if e.failed {
				return
			}
		}
	}
	for d, fs := range fresh {
		x := e.q(d)
		firsts := map[*e2eMsg]bool{}
		for _, m := range fs {
			if k := indexOf(x.re, m); k >= 0 {
				x.re = append(x.re[:k:k], x.re[k+1:]...)
				e.r.Count("e2e_redelivered", 1)
			} else if m.deliveries == 0 && indexOf(x.new, m) >= 0 {
				firsts[m] = true
			} else {
				e.fail("queue-duplicate", fmt.Sprintf("queue message %s was delivered although it is acknowledged or held elsewhere", m.uid), nil)
				return
			}
			m.deliveries++
		}
		for i := 0; i < len(firsts); i++ {
			if !firsts[x.new[i]] {
				e.fail("queue-order", fmt.Sprintf("queue message %s was passed over", x.new[i].uid), nil)
				return
			}
		}
		x.new = x.new[len(firsts):]
		if len(firsts) > 0 && len(x.re) > 0 && !e.multi {
			e.fail("queue-order", fmt.Sprintf("a new message was delivered while %s, which had come back, waits", x.re[0].uid), nil)
			return
		}
	}
	e.multi = false
	for _, c := range e.alive() {
		for _, s := range c.subs {
			if s.queue && s.out == nil {
				if x := e.q(s.dest); len(x.re)+len(x.new) > 0 {
					e.fail("queue-withheld", fmt.Sprintf("%d messages wait in %q although subscription %s of %s is ready", len(x.re)+len(x.new), s.dest, s.sub.Id(), c.name), fmt.Sprint(x.re, x.new))
					return
				}
			}
		}
	}
}

func indexOf[T comparable](x []T, v T) int {
	for i, y := range x {
		if y == v {
			return i
		}
	}
	return -1
}

func (r *R) e2eStepwise(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		var auth *e2eAuth
		o := srvOpt{}
		if rng.Intn(3) == 0 {
			auth = &e2eAuth{randText(rng, 2), randText(rng, 2)}
			o.auth = *auth
		}
		if rng.Intn(2) == 0 {
			o.heartBeat = []time.Duration{time.Second, 10 * time.Second, 5 * time.Minute, time.Duration(1+rng.Intn(100000)) * time.Millisecond}[rng.Intn(4)]
		}
		r.inServer(rng, o, func(w *srvWorld) {
			e := &e2e{r: r, w: w, rng: rng, queues: map[string]*e2eQueue{}, msgs: map[string]*e2eMsg{}}
			queues, topics := e2eDests(rng)
			for k := 2 + rng.Intn(2); k > 0 && !e.failed; k-- {
				e.connect(auth)
			}
			steps := 20 + rng.Intn(60)
			for k := 0; k < steps && !e.failed; k++ {
				e.step(queues, topics, auth)
				if !e.failed {
					e.verify()
				}
			}
			// everything that waits or is held must still be there
			if !e.failed {
				e.drain(queues, auth)
			}
			r.Count("e2e_messages", e.judged)
			r.Count("e2e_steps", steps)
			r.Eval(strings.Join(e.sig, ","), e.judged > 0)
			r.Sample("e2e history", e.log)
			for _, c := range e.cl {
				c.mc.Reset()
			}
		})
	})
}

func (e *e2e) drain(queues []string, auth *e2eAuth) {
	for _, c := range e.alive() {
		if e.rng.Intn(2) == 0 {
			e.must(c.name+": Disconnect", c.conn.Disconnect)
		} else {
			c.mc.Reset()
			synctest.Wait()
		}
		e.left(c)
		e.verify()
		if e.failed {
			return
		}
	}
	c := e.connect(auth)
	for _, d := range queues {
		if e.failed {
			return
		}
		s := &e2eSub{cli: c, dest: d, mode: stomp.AckAuto, queue: true}
		e.must(c.name+": Subscribe "+d, func() (err error) { s.sub, err = c.conn.Subscribe(d, stomp.AckAuto); return err })
		if e.failed {
			return
		}
		go s.collect()
		c.subs = append(c.subs, s)
		e.verify()
	}
	if e.failed {
		return
	}
	e.must(c.name+": Disconnect", c.conn.Disconnect)
	if n := libGoroutines(); n != e.w.base && !e.failed {
		e.fail("goroutines-left", fmt.Sprintf("%d goroutines of the library are left after all connections have ended, %d before the first", n, e.w.base), nil)
	}
}

// e2eCrossing: clients that publish bursts to destinations they are subscribed to themselves, over a network that holds
// little in either direction, so that client and server keep writing to each other. All calls return and every message
// arrives.
func (r *R) e2eCrossing(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		r.inServer(rng, srvOpt{}, func(w *srvWorld) {
			e := &e2e{r: r, w: w, rng: rng, queues: map[string]*e2eQueue{}, msgs: map[string]*e2eMsg{}}
			type cl struct {
				conn *stomp.Conn
				mu   sync.Mutex
				got  []string
				errs []string
				done int
				work int
			}
			var cls []*cl
			useQueue := rng.Intn(2) == 0
			var qgot []string
			var qmu sync.Mutex
			var conns []*MemConn
			for k := 1 + rng.Intn(3); k > 0; k-- {
				mc, ms := w.l.dial()
				conns = append(conns, mc)
				lim := 1 + rng.Intn(3000)
				mc.SetInCap(lim)
				ms.SetInCap(1 + rng.Intn(3000))
				opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nopLog{}), stomp.ConnOpt.MsgSendTimeout(0), stomp.ConnOpt.HeartBeat(0, 0),
					stomp.ConnOpt.RcvReceiptTimeout(0), stomp.ConnOpt.DisconnectReceiptTimeout(0)}
				if rng.Intn(3) == 0 {
					opts = append(opts, stomp.ConnOpt.ReadChannelCapacity(1+rng.Intn(3)), stomp.ConnOpt.WriteChannelCapacity(1+rng.Intn(3)))
				}
				c := &cl{}
				e.must("Connect", func() (err error) { c.conn, err = stomp.Connect(mc, opts...); return err })
				if e.failed {
					return
				}
				cls = append(cls, c)
				var s *stomp.Subscription
				e.must("Subscribe", func() (err error) { s, err = c.conn.Subscribe("/topic/a", stomp.AckAuto); return err })
				if e.failed {
					return
				}
				go func() {
					for msg := range s.C {
						c.mu.Lock()
						if msg.Err == nil {
							c.got = append(c.got, string(msg.Body))
						} else {
							c.errs = append(c.errs, "subscription: "+msg.Err.Error())
						}
						c.mu.Unlock()
					}
				}()
				if useQueue {
					mode := []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}[rng.Intn(3)]
					var s *stomp.Subscription
					e.must("Subscribe", func() (err error) { s, err = c.conn.Subscribe("/queue/a", mode); return err })
					if e.failed {
						return
					}
					go func() {
						for msg := range s.C {
							if msg.Err != nil {
								c.mu.Lock()
								c.errs = append(c.errs, "subscription: "+msg.Err.Error())
								c.mu.Unlock()
								continue
							}
							qmu.Lock()
							qgot = append(qgot, string(msg.Body))
							qmu.Unlock()
							if mode != stomp.AckAuto {
								if err := c.conn.Ack(msg); err != nil {
									c.mu.Lock()
									c.errs = append(c.errs, "Ack: "+err.Error())
									c.mu.Unlock()
								}
							}
						}
					}()
				}
			}
			synctest.Wait()
			e.w.quiesce()
			var all, qall []string
			for ci, c := range cls {
				c.work = 1 + rng.Intn(3)
				for g := 0; g < c.work; g++ {
					size := rng.Intn(3000)
					receipts := rng.Intn(4) == 0
					var mine [][2]string
					for k := 10 + rng.Intn(40); k > 0; k-- {
						d, b := "/topic/a", fmt.Sprintf("%d.%d.%d %s", ci, g, k, strings.Repeat("x", size))
						if useQueue && rng.Intn(3) == 0 {
							d = "/queue/a"
							qall = append(qall, b)
						} else {
							all = append(all, b)
						}
						mine = append(mine, [2]string{d, b})
					}
					go func() {
						for _, x := range mine {
							var opts []func(*frame.Frame) error
							if receipts {
								opts = append(opts, stomp.SendOpt.Receipt)
							}
							if err := c.conn.Send(x[0], "", []byte(x[1]), opts...); err != nil {
								c.mu.Lock()
								c.errs = append(c.errs, "Send: "+err.Error())
								c.mu.Unlock()
								break
							}
						}
						c.mu.Lock()
						c.done++
						c.mu.Unlock()
					}()
				}
			}
			time.Sleep(10 * time.Minute)
			synctest.Wait()
			for ci, c := range cls {
				c.mu.Lock()
				if c.done < c.work || len(c.errs) > 0 {
					e.fail("crossing-calls", fmt.Sprintf("client %d: %d of %d goroutines are through with their sends, errors %q", ci, c.done, c.work, c.errs), nil)
				}
				a, b := append([]string{}, c.got...), append([]string{}, all...)
				sort.Strings(a)
				sort.Strings(b)
				if d := diffStrings(a, b); d != "" {
					e.fail("crossing-topic", fmt.Sprintf("client %d, messages of the topic received (sorted): %s", ci, d), nil)
				}
				if !sameOrder(c.got, cls[0].got) {
					e.fail("crossing-order", fmt.Sprintf("client %d got the messages of the topic in another order than client 0", ci), nil)
				}
				c.mu.Unlock()
			}
			qmu.Lock()
			sort.Strings(qgot)
			sort.Strings(qall)
			if d := diffStrings(qgot, qall); d != "" {
				e.fail("crossing-queue", "messages of the queue received by all consumers (sorted): "+d, nil)
			}
			qmu.Unlock()
			if !e.failed {
				for _, c := range cls {
					e.must("Disconnect", c.conn.Disconnect)
				}
			}
			r.Count("e2e_crossings", 1)
			r.Count("e2e_crossing_messages", len(all)*len(cls)+len(qall))
			r.Eval(fmt.Sprintf("crossing|%d|%d|%d", len(cls), len(all), len(qall)), true)
			for _, mc := range conns {
				mc.Reset()
			}
		})
	})
}

func sameOrder(a, b []string) bool { return diffStrings(a, b) == "" }
