package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
)

// Stepwise client engine. One real client connection, a peer that is only a socket, virtual time. Every step ends in a
// quiescent state, in which everything is compared with a reference model: frames at the peer, calls that have
// returned and with what, what the subscriptions' channels gave, counters, the state of the network connection.

const ruleCliModel = "one case = one client connection driven step by step in virtual time with an exact model compared after each step; "

// allocated ids of the whole process (C19)
var allIDs = struct {
	sync.Mutex
	m map[string]string
}{m: map[string]string{}}

func newID(id, what string) string {
	allIDs.Lock()
	defer allIDs.Unlock()
	if old, dup := allIDs.m[id]; dup {
		return fmt.Sprintf("%s got the id %q, which was already %s", what, id, old)
	}
	allIDs.m[id] = what
	return ""
}

type cliOp struct {
	name     string
	call     func() error
	done     bool
	err      error
	at       time.Duration
	started  time.Duration
	exp      *expF // the frame it must put on the wire, nil: none
	receipt  string
	confirm  bool // returns only after RECEIPT
	timeout  time.Duration
	timeText string
	// expectation
	due     bool
	want    string // "" = success, "*" = any error, otherwise the error text
	wantAt  time.Duration
	sub     *cliSub
	tx      *cliTx
	kind    string
	late    bool // timed out: its receipt may still come
	prop    []string
	seenEnd bool
}

// expF says what a frame on the wire must look like.
type expF struct {
	cmd     string
	std     [][2]string // headers that must be there, any order between different names
	custom  [][2]string // must appear in this relative order
	body    []byte
	receipt string // "" none, "*" allocated by the library, otherwise the value
	id      string // "*": allocated by the library
	op      *cliOp
	sub     *cliSub
}

func (e *expF) String() string {
	return fmt.Sprintf("%s %v %v receipt=%q body=%s", e.cmd, e.std, e.custom, e.receipt, q(e.body))
}

// match compares a frame with the expectation.
func (e *expF) match(f *F) string {
	if f.Cmd != e.cmd {
		return "command"
	}
	if !bytes.Equal(f.Body, e.body) {
		return "body"
	}
	want := append(append([][2]string{}, e.std...), e.custom...)
	got := append([][2]string{}, f.H...)
	if e.receipt == "*" {
		v, ok := f.get("receipt")
		if !ok || v == "" {
			return "no receipt header"
		}
		want = append(want, [2]string{"receipt", v})
	} else if e.receipt != "" {
		want = append(want, [2]string{"receipt", e.receipt})
	}
	if e.id == "*" {
		v, ok := f.get("id")
		if !ok || v == "" {
			return "no id header"
		}
		want = append(want, [2]string{"id", v})
	}
	if len(want) != len(got) {
		return fmt.Sprintf("headers: wanted %v", want)
	}
	// entries of one name keep their order
	byName := map[string][]string{}
	for _, h := range want {
		byName[h[0]] = append(byName[h[0]], h[1])
	}
	for _, h := range got {
		l := byName[h[0]]
		if len(l) == 0 || l[0] != h[1] {
			return fmt.Sprintf("header %q:%q, wanted %v", h[0], h[1], want)
		}
		byName[h[0]] = l[1:]
	}
	// custom entries keep their order
	i := 0
	for _, h := range got {
		if i < len(e.custom) && h == e.custom[i] {
			i++
		}
	}
	if i != len(e.custom) {
		return fmt.Sprintf("custom headers out of order, wanted %v", e.custom)
	}
	return ""
}

type cliMsg struct {
	f   *F
	seq int
}

type gotMsg struct {
	m   *stomp.Message
	err error
	f   *F // content as seen at delivery
}

type cliSub struct {
	s         *stomp.Subscription
	id        string
	dest      string
	ack       stomp.AckMode
	reply     bool
	sent      []*cliMsg
	state     string // "active", "closing", "closed", "ended" (with the connection), "lost" (unsubscribe timed out)
	errText   string // expected text of the error for "ended", "*" any
	mayErr    bool   // an error may or may not come before the channel is closed
	mu        sync.Mutex
	got       []gotMsg
	closed    bool
	gate      chan struct{} // consumer waits here while not nil
	useRead   bool
	receipted bool // its UNSUBSCRIBE has been answered, though too late
	limit     int
	taken     []*stomp.Message // candidates for acks
	unsubOp   *cliOp
	readDone  error
}

type cliTx struct {
	t      *stomp.Transaction
	id     string
	done   bool
	busy   bool
	broken bool
}

type cliModel struct {
	w       *srvWorld
	r       *R
	rng     *rand.Rand
	conn    *stomp.Conn
	a       *MemConn
	peer    *rawClient
	version string
	stats   bool

	rcvT, unsubT, discT time.Duration

	ops     []*cliOp // not yet returned
	expect  []*expF
	subs    []*cliSub
	txs     []*cliTx
	nOut    int // frames the peer must have got after connect
	nIn     int // frames and heart-beats the peer has sent since
	nMsg    int
	lastMid string
	maxSubs int
	maxTxs  int
	large   bool
	nTag    int
	ended   bool   // the connection is gone
	closing bool   // a DISCONNECT is on the wire
	endText string // text pending calls get
	loose   bool   // the frames of this step may or may not have arrived
	failed  bool
	log     []string
	sig     []string
	late    []string // receipt ids of timed-out calls
	prof    map[string]int
}

var cliAll = []string{"C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20"}

func (m *cliModel) fail(props []string, key, what string, detail any) {
	if m.failed {
		return
	}
	m.failed = true
	mine := false
	for _, p := range props {
		if p == m.r.Prop {
			mine = true
		}
	}
	if !mine {
		m.r.Count("failures_of_other_properties", 1)
		if os.Getenv("VERIF_OTHER") != "" {
			fmt.Printf("OTHER %v %s %s\n%v\n%s\n", props, key, what, detail, strings.Join(m.log, "\n"))
		}
		return
	}
	m.r.Fail(key, what, map[string]any{"detail": detail, "history": tail(m.log, 60)})
}

func (m *cliModel) logf(f string, a ...any) { m.log = append(m.log, fmt.Sprintf(f, a...)) }

func (m *cliModel) tag() string { m.nTag++; return fmt.Sprintf("t%d", m.nTag) }

// inClient runs f in a bubble of its own.
func (r *R) inClient(rng *rand.Rand, f func(w *srvWorld)) {
	var fin bool
	var dead string
	done := make(chan struct{})
	go func() {
		defer close(done)
		dead, fin = r.bubble(func() {
			w := &srvWorld{r: r, rng: rng, t0: time.Now(), jrng: rand.New(rand.NewSource(rng.Int63()))}
			w.base = libGoroutines()
			f(w)
		})
	}()
	<-done
	if dead != "" && !r.Failing() {
		for _, p := range []string{"C16", "C15", "C11", "C17", "C07"} {
			if p == r.Prop {
				r.Fail("left-behind", "goroutines are left blocked for ever after the connection has ended: "+dead, nil)
				return
			}
		}
		r.Count("failures_of_other_properties", 1)
	} else if !fin {
		r.Count("unfinished_bubbles", 1)
	}
}

// stallMonitor reports a case in which nothing in the process can run any more although the case is not over.
// A goroutine waiting for a mutex keeps virtual time from passing, so such a state would otherwise last for ever.
func (r *R) stallMonitor() {
	go func() {
		last, since, blocked := "", time.Now(), 0
		for {
			time.Sleep(time.Second)
			r.mu.Lock()
			cur := r.curCase + fmt.Sprint(r.evaluations)
			r.mu.Unlock()
			if cur != last {
				last, since, blocked = cur, time.Now(), 0
				continue
			}
			if time.Since(since) < 8*time.Second {
				continue
			}
			busy, sleeper := false, false
			var sel []string
			for i, g := range allStacks() {
				switch gState(g) {
				case "running", "runnable":
					if i > 0 {
						busy = true
					}
				case "sleep":
					if !strings.Contains(g, "synctest bubble") && !strings.Contains(g, "stallMonitor") {
						busy = true
					}
					sleeper = true
				}
				if strings.Contains(g, "go-stomp/stomp") {
					sel = append(sel, g)
				}
			}
			if busy {
				blocked = 0
				continue
			}
			blocked++
			if blocked >= 5 && sleeper {
				// time itself stands still: a lock is held while its holder waits for time to pass. Nothing can be concluded.
				if r.Failing() {
					r.finish()
				} else {
					r.flush(true)
				}
				fmt.Fprintln(os.Stderr, "virtual time stands still:\n"+strings.Join(sel, "\n\n"))
				os.Exit(3)
			}
			if blocked >= 5 {
				r.Fail("deadlock", "no goroutine can continue: calls on the connection wait for each other for ever", strings.Join(sel, "\n\n"))
				r.finish()
				os.Exit(0)
			}
		}
	}()
}

// ---- connecting

var sessTexts = []string{"", "s1", "session-é", "x:y", "a\\b"}

func (m *cliModel) connect(opts ...func(*stomp.Conn) error) bool {
	rng := m.rng
	a, b := memPipe()
	m.a = a
	m.peer = &rawClient{w: m.w, name: "peer", c: b, srv: a, overCh: make(chan struct{})}
	if rng.Intn(3) == 0 {
		a.Fragment(randChunk(rng.Int63()))
	}
	if rng.Intn(3) == 0 {
		b.Fragment(randChunk(rng.Int63()))
	}
	m.version = []string{"1.0", "1.1", "1.2", "1.2"}[rng.Intn(4)]
	go m.peer.read()
	o := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nopLog{}), stomp.ConnOpt.RcvReceiptTimeout(m.rcvT),
		stomp.ConnOpt.UnsubscribeReceiptTimeout(m.unsubT), stomp.ConnOpt.DisconnectReceiptTimeout(m.discT)}
	if m.stats {
		o = append(o, stomp.ConnOpt.WithStats())
	}
	if rng.Intn(3) == 0 {
		o = append(o, stomp.ConnOpt.ReadChannelCapacity(1+rng.Intn(3)), stomp.ConnOpt.WriteChannelCapacity(1+rng.Intn(3)))
	}
	if rng.Intn(4) == 0 {
		o = append(o, stomp.ConnOpt.ReadBufferSize(16+rng.Intn(8000)), stomp.ConnOpt.WriteBufferSize(1+rng.Intn(8000)))
	}
	rng.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	o = append(o, opts...)
	done := make(chan error, 1)
	go func() {
		c, err := stomp.Connect(a, o...)
		m.conn = c
		done <- err
	}()
	synctest.Wait()
	if fs := m.peer.take(); len(fs) != 1 || fs[0].F.Cmd != "CONNECT" {
		m.fail(cliAll, "connect", fmt.Sprintf("the peer got %v instead of one CONNECT", fs), nil)
		return false
	}
	cf := mk("CONNECTED")
	if m.version != "1.0" || rng.Intn(2) == 0 {
		cf.H = append(cf.H, [2]string{"version", m.version})
	}
	_ = m.peer.send(cf)
	synctest.Wait()
	select {
	case err := <-done:
		if err != nil {
			m.fail(cliAll, "connect", "a valid CONNECTED was refused: "+err.Error(), cf.String())
			return false
		}
	default:
		m.fail(cliAll, "connect", "connect does not return after CONNECTED", cf.String())
		return false
	}
	return true
}

// ---- starting calls

func (m *cliModel) start(op *cliOp) {
	op.started = m.w.now()
	m.ops = append(m.ops, op)
	m.logf("%v call %s", m.w.now(), op.name)
	m.sig = append(m.sig, op.kind)
	if op.exp != nil {
		op.exp.op = op
		m.expect = append(m.expect, op.exp)
	}
	w := m.w
	go func() {
		err := op.call()
		w.mu.Lock()
		op.err, op.at, op.done = err, w.now(), true
		w.mu.Unlock()
	}()
}

// resolve sets what a call must return, now.
func (op *cliOp) resolve(at time.Duration, want string) {
	if op.due {
		return
	}
	op.due, op.want, op.wantAt = true, want, at
}

func (m *cliModel) now() time.Duration { return m.w.now() }

// sendOptions draws options for a send, and what they do.
func (m *cliModel) sendOptions(rng *rand.Rand, e *expF, allowReceipt bool) (opts []func(*frame.Frame) error, fails string, rcpt bool) {
	// e.std starts as content-length, destination, content-type
	n := rng.Intn(5)
	if rng.Intn(60) == 0 {
		n = 20 + rng.Intn(100)
	}
	del := func(k string) {
		var x, y [][2]string
		for _, h := range e.std {
			if h[0] != k {
				x = append(x, h)
			}
		}
		for _, h := range e.custom {
			if h[0] != k {
				y = append(y, h)
			}
		}
		e.std, e.custom = x, y
	}
	for i := 0; i < n; i++ {
		switch k := rng.Intn(12); {
		case k < 6:
			name, val := randName(rng), longText(rng, 4)
			if name == "receipt" || name == "transaction" || name == "id" {
				name = "x-" + name
			}
			opts = append(opts, stomp.SendOpt.Header(name, val))
			e.custom = append(e.custom, [2]string{name, val})
		case k == 6:
			opts = append(opts, nil)
		case k == 7 && !bytes.Contains(e.body, []byte{0}):
			opts = append(opts, stomp.SendOpt.NoContentLength)
			del("content-length")
		case k == 8 && allowReceipt && !rcpt:
			rcpt = true
			opts = append(opts, stomp.SendOpt.Receipt)
			e.receipt = "*"
		case k == 9 && allowReceipt && !rcpt && rng.Intn(3) == 0:
			rcpt = true
			v := "user-" + m.tag()
			opts = append(opts, stomp.SendOpt.Header("receipt", v))
			e.receipt = v
		case k == 10 && rng.Intn(4) == 0:
			fails = "option failed " + m.tag()
			err := errors.New(fails)
			opts = append(opts, func(*frame.Frame) error { return err })
			return
		case k == 11 && rng.Intn(8) == 0:
			fails = stomp.ErrInvalidCommand.Error()
			opts = append(opts, stomp.SubscribeOpt.Id("x"))
			return
		}
	}
	return
}

func (m *cliModel) body(rng *rand.Rand) []byte {
	n := bodySize(rng)
	if rng.Intn(150) == 0 {
		n = 100000 + rng.Intn(900000)
	}
	b := randBody(rng, n, rng.Intn(2) == 0)
	if rng.Intn(10) == 0 {
		return nil
	}
	return b
}

func (m *cliModel) contentType(rng *rand.Rand) string {
	return []string{"", "text/plain", "application/octet-stream", "a:b;c=\"d\"", "x\ny"}[rng.Intn(5)]
}

func (m *cliModel) dest(rng *rand.Rand) string {
	return []string{"/queue/a", "/topic/b", "a b", "x:y", "d\\e\nf", "/queue/" + longText(rng, 3)}[rng.Intn(6)]
}

func (m *cliModel) stepSend(rng *rand.Rand, tx *cliTx, wantReceipt bool) *cliOp {
	dest, ct, body := m.dest(rng), m.contentType(rng), m.body(rng)
	e := &expF{cmd: "SEND", body: body, std: [][2]string{{"content-length", fmt.Sprint(len(body))}, {"destination", dest}}}
	if ct != "" {
		e.std = append(e.std, [2]string{"content-type", ct})
	}
	opts, fails, rcpt := m.sendOptions(rng, e, true)
	if wantReceipt && !rcpt && fails == "" {
		opts = append(opts, stomp.SendOpt.Receipt)
		e.receipt = "*"
		rcpt = true
	}
	if rcpt && rng.Intn(8) == 0 && fails == "" {
		// a receipt header that is taken away again by a later option is no request
		opts = append(opts, func(f *frame.Frame) error { f.Header.Del("receipt"); return nil })
		e.receipt, rcpt = "", false
	}
	op := &cliOp{kind: "send", name: "Send " + dest, exp: e, prop: []string{"C09"}}
	if rcpt {
		op.kind, op.confirm, op.timeout, op.timeText = "send-receipt", true, m.rcvT, stomp.ErrMsgReceiptTimeout.Error()
		op.prop = []string{"C10", "C11"}
	}
	if tx != nil {
		if rng.Intn(6) == 0 && fails == "" {
			// whatever the options say, the frame belongs to this transaction
			v := "other-" + m.tag()
			if rng.Intn(2) == 0 {
				v = ""
			}
			opts = append([]func(*frame.Frame) error{stomp.SendOpt.Header("transaction", v)}, opts...)
		}
		e.std = append(e.std, [2]string{"transaction", tx.id})
		op.kind, op.tx = "tx-"+op.kind, tx
		op.timeout = 0
		op.call = func() error { return tx.t.Send(dest, ct, body, opts...) }
		op.name = "tx " + tx.id + " " + op.name
	} else {
		op.call = func() error { return m.conn.Send(dest, ct, body, opts...) }
	}
	if tx != nil && tx.done {
		op.exp = nil
		op.confirm = false
		op.prop = []string{"C14"}
		op.resolve(m.now(), stomp.ErrCompletedTransaction.Error())
	} else if m.ended || m.closing {
		op.exp, op.confirm = nil, false
		op.prop = []string{"C16", "C17"}
		if tx == nil {
			op.resolve(m.now(), stomp.ErrAlreadyClosed.Error())
		} else {
			op.resolve(m.now(), "*")
		}
	} else if fails != "" {
		op.exp, op.confirm = nil, false
		op.resolve(m.now(), fails)
	} else if !op.confirm {
		op.resolve(m.now(), "")
	}
	m.start(op)
	return op
}

func (m *cliModel) stepSubscribe(rng *rand.Rand, x map[string]int) {
	dest := m.dest(rng)
	ack := []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}[rng.Intn(3)]
	e := &expF{cmd: "SUBSCRIBE", std: [][2]string{{"destination", dest}, {"ack", ack.String()}}, id: "*"}
	s := &cliSub{dest: dest, ack: ack, state: "active", useRead: rng.Intn(4) == 0}
	var opts []func(*frame.Frame) error
	fails := ""
	for i, n := 0, rng.Intn(4); i < n && fails == ""; i++ {
		switch rng.Intn(8) {
		case 0, 1, 2:
			name, val := randName(rng), randText(rng, 4)
			if name == "id" || name == "receipt" || name == "reply-to" || name == "destination" || name == "ack" {
				name = "x-" + name
			}
			opts = append(opts, stomp.SubscribeOpt.Header(name, val))
			e.custom = append(e.custom, [2]string{name, val})
		case 3:
			if s.id == "" {
				s.id = "sub-" + m.tag() + randText(rng, 2)
				if o := m.formerSub(rng); o != nil {
					s.id = o.id
					m.r.Count("sub_ids_used_again", 1)
				}
				opts = append(opts, stomp.SubscribeOpt.Id(s.id))
				e.id = ""
				e.std = append(e.std, [2]string{"id", s.id})
			}
		case 4:
			opts = append(opts, nil)
		case 5:
			if rng.Intn(4) == 0 {
				fails = stomp.ErrInvalidCommand.Error()
				opts = append(opts, stomp.SendOpt.Header("a", "b"))
			}
		case 6:
			if rng.Intn(4) == 0 && s.id == "" {
				s.reply = true
				s.id = "/temp-queue/" + m.tag()
				opts = append(opts, stomp.SubscribeOpt.Header("reply-to", s.id))
			}
		case 7:
			if rng.Intn(3) == 0 && e.receipt == "" {
				v := "user-" + m.tag()
				opts = append(opts, stomp.SubscribeOpt.Header("receipt", v))
				e.receipt = v
			}
		}
	}
	op := &cliOp{kind: "subscribe", name: fmt.Sprintf("Subscribe %q %v", dest, ack), exp: e, sub: s, prop: []string{"C09", "C15"}}
	if s.reply {
		op.exp = nil
	}
	e.sub = s
	op.call = func() error {
		sub, err := m.conn.Subscribe(dest, ack, opts...)
		if err == nil {
			s.s = sub
		} else if sub != nil {
			return fmt.Errorf("Subscribe returned a subscription and the error %w", err)
		}
		return err
	}
	switch {
	case m.ended || m.closing:
		op.exp = nil
		op.prop = []string{"C16", "C17"}
		op.resolve(m.now(), "*")
	case fails != "":
		op.exp = nil
		op.resolve(m.now(), fails)
	default:
		op.resolve(m.now(), "")
		if e.receipt != "" && !s.reply {
			m.late = append(m.late, e.receipt)
		}
	}
	m.start(op)
	synctest.Wait()
	if op.done && op.err == nil && op.want == "" && s.s != nil {
		if s.id == "" {
			s.id = s.s.Id()
			if p := newID(s.id, "a subscription"); p != "" || s.id == "" {
				m.fail([]string{"C19"}, "id-reused", p, s.id)
			}
		}
		if s.s.Id() != s.id || s.s.Destination() != dest || s.s.AckMode() != ack {
			m.fail([]string{"C19", "C15", "C09"}, "sub-attributes", fmt.Sprintf("subscription reports id %q destination %q ack %v", s.s.Id(), s.s.Destination(), s.s.AckMode()), op.name)
		}
		m.subs = append(m.subs, s)
		if rng.Intn(6) == 0 {
			s.gate = make(chan struct{})
			s.limit = 16
		}
		m.consume(s, rng.Int63())
	}
}

// consume is the application goroutine reading a subscription.
func (m *cliModel) consume(s *cliSub, seed int64) {
	gate := s.gate
	rng := rand.New(rand.NewSource(seed))
	record := func(g gotMsg) {
		if g.m != nil {
			g.f = &F{Cmd: "MESSAGE", Body: append([]byte{}, g.m.Body...)}
			if g.m.Header != nil {
				g.f.H = fromLib(&frame.Frame{Header: g.m.Header}).H
			}
			if g.m.Err == nil && rng.Intn(4) == 0 {
				if p := readBody(g.m, g.f.Body, rng); p != "" {
					m.fail([]string{"C12"}, "body-reader", p, g.f.String())
				}
			}
		}
		s.mu.Lock()
		s.got = append(s.got, g)
		if g.m != nil && g.m.Err == nil {
			s.taken = append(s.taken, g.m)
		}
		s.mu.Unlock()
	}
	go func() {
		if gate != nil {
			<-gate
		}
		if s.useRead {
			for {
				msg, err := s.s.Read()
				if err != nil {
					if msg != nil {
						m.fail([]string{"C12", "C16"}, "read-both", "Read returned a message and an error", err.Error())
					}
					if err.Error() == stomp.ErrCompletedSubscription.Error() {
						s.mu.Lock()
						s.closed = true
						s.mu.Unlock()
						return
					}
					record(gotMsg{err: err})
					continue
				}
				if msg == nil || msg.Err != nil {
					m.fail([]string{"C16", "C12"}, "read-error-hidden", "Read returned no error, but what it returned is not a message", fmt.Sprintf("%+v", msg))
					return
				}
				record(gotMsg{m: msg})
			}
		}
		for msg := range s.s.C {
			if msg == nil {
				m.fail(cliAll, "nil-message", "a nil message on a subscription channel", nil)
				continue
			}
			record(gotMsg{m: msg, err: msg.Err})
		}
		s.mu.Lock()
		s.closed = true
		s.mu.Unlock()
	}()
}

// readBody reads a message's body through its reader interface.
func readBody(msg *stomp.Message, want []byte, rng *rand.Rand) string {
	keep := append([]byte{}, want...)
	var got []byte
	style := rng.Intn(3)
	for steps := 0; ; steps++ {
		if steps > 3*len(want)+20 {
			return "reading a body does not end"
		}
		if style == 0 || (style == 1 && rng.Intn(2) == 0) {
			c, err := msg.ReadByte()
			if err == io.EOF {
				break
			}
			if err != nil {
				return "ReadByte: " + err.Error()
			}
			got = append(got, c)
			continue
		}
		p := make([]byte, 1+rng.Intn(1+rng.Intn(1+len(want))))
		n, err := msg.Read(p)
		if n < 0 || n > len(p) {
			return fmt.Sprintf("Read returned %d for a buffer of %d", n, len(p))
		}
		got = append(got, p[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			return "Read: " + err.Error()
		}
		if n == 0 {
			return "Read returned 0 bytes and no error"
		}
	}
	if !bytes.Equal(got, keep) {
		return fmt.Sprintf("reading the body gave %s instead of %s", q(got), q(keep))
	}
	if n, err := msg.Read(make([]byte, 3)); n != 0 || err != io.EOF {
		return "no EOF after the body"
	}
	return ""
}

func (m *cliModel) pickSub(rng *rand.Rand, states ...string) *cliSub {
	var c []*cliSub
	for _, s := range m.subs {
		for _, st := range states {
			if s.state == st {
				c = append(c, s)
			}
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[rng.Intn(len(c))]
}

// formerSub picks a subscription whose id may be used again: it has been unsubscribed, or that has been given up.
func (m *cliModel) formerSub(rng *rand.Rand) *cliSub {
	o := m.pickSub(rng, "closed", "lost")
	if o == nil || o.reply || rng.Intn(2) == 0 {
		return nil
	}
	for _, t := range m.subs {
		if t.id == o.id && t.state != "closed" && t.state != "lost" {
			return nil
		}
	}
	return o
}

func (m *cliModel) stepUnsubscribe(rng *rand.Rand, s *cliSub) {
	e := &expF{cmd: "UNSUBSCRIBE", std: [][2]string{{"id", s.id}}, receipt: "*"}
	var opts []func(*frame.Frame) error
	fails := ""
	switch rng.Intn(8) {
	case 0:
		name, val := "x"+randName(rng), randText(rng, 3)
		opts = append(opts, stomp.SubscribeOpt.Header(name, val))
		e.custom = append(e.custom, [2]string{name, val})
	case 1:
		fails = stomp.ErrNilOption.Error()
		opts = append(opts, nil)
	case 2:
		fails = "option failed " + m.tag()
		err := errors.New(fails)
		opts = append(opts, func(*frame.Frame) error { return err })
	case 3:
		// the receipt header of an UNSUBSCRIBE belongs to the library
		opts = append(opts, stomp.SubscribeOpt.Header("receipt", "user-"+m.tag()))
	}
	op := &cliOp{kind: "unsubscribe", name: "Unsubscribe " + s.id, exp: e, sub: s, confirm: true, timeout: m.unsubT,
		timeText: stomp.ErrUnsubscribeReceiptTimeout.Error(), prop: []string{"C15", "C11"}}
	op.call = func() error { return s.s.Unsubscribe(opts...) }
	switch {
	case s.state == "closing" || s.state == "closed" || s.state == "lost":
		op.exp, op.confirm = nil, false
		op.resolve(m.now(), stomp.ErrCompletedSubscription.Error())
		op.prop = []string{"C15"}
	case m.ended || m.closing:
		op.exp, op.confirm = nil, false
		op.resolve(m.now(), "*")
		op.prop = []string{"C16", "C17"}
		if m.closing && fails == "" && s.state == "active" {
			// Active says whether it has been unsubscribed
			s.state, s.mayErr = "closing", true
		}
	case fails != "":
		op.exp, op.confirm = nil, false
		op.resolve(m.now(), fails)
	case s.reply:
		op.exp, op.confirm = nil, false
		op.resolve(m.now(), "")
		s.state = "closed"
	default:
		s.state = "closing"
		s.unsubOp = op
	}
	m.start(op)
}

func (m *cliModel) stepAck(rng *rand.Rand, tx *cliTx) {
	nack := rng.Intn(3) == 0
	var msg *stomp.Message
	var src *cliSub
	odd := ""
	if s := m.subs; len(s) > 0 && rng.Intn(10) > 0 {
		src = s[rng.Intn(len(s))]
		src.mu.Lock()
		if n := len(src.taken); n > 0 {
			msg = src.taken[rng.Intn(n)]
		}
		src.mu.Unlock()
	}
	if msg == nil || rng.Intn(8) == 0 {
		// not from the server
		cp := &stomp.Message{Header: frame.NewHeader("message-id", "m1", "ack", "a1"), Conn: m.conn}
		if msg != nil {
			*cp = *msg
		}
		switch rng.Intn(3) {
		case 0:
			cp.Header = nil
		case 1:
			cp.Subscription = nil
		case 2:
			cp.Conn = nil
		}
		odd = "not received"
		if cp.Subscription == nil || cp.Header == nil || cp.Conn == nil {
			msg = cp
		}
	}
	op := &cliOp{kind: "ack", prop: []string{"C13"}}
	verb := "ACK"
	if nack {
		verb, op.kind = "NACK", "nack"
	}
	f := &expF{cmd: verb}
	want := ""
	switch {
	case nack && m.version == "1.0":
		want = stomp.ErrNackNotSupported.Error()
	case odd != "":
		want = stomp.ErrNotReceivedMessage.Error()
	case msg.Subscription.AckMode() == stomp.AckAuto:
		f = nil
		if nack {
			want = stomp.ErrCannotNackAutoSub.Error()
		}
	default:
		if m.version == "1.2" {
			if v, ok := msg.Header.Contains("ack"); ok {
				f.std = [][2]string{{"id", v}}
			} else {
				want = "missing header: ack"
			}
		} else {
			f.std = [][2]string{{"subscription", src.id}}
			if v, ok := msg.Header.Contains("message-id"); ok {
				f.std = append(f.std, [2]string{"message-id", v})
			} else {
				want = "missing header: message-id"
			}
		}
	}
	if want != "" {
		f = nil
	}
	op.exp = f
	op.name = verb
	if tx != nil {
		op.tx = tx
		op.kind = "tx-" + op.kind
		op.name = "tx " + tx.id + " " + verb
		op.prop = []string{"C13", "C14"}
		if tx.done {
			want = stomp.ErrCompletedTransaction.Error()
			op.exp = nil
		} else if f != nil {
			f.std = append(f.std, [2]string{"transaction", tx.id})
		}
		op.call = func() error {
			if nack {
				return tx.t.Nack(msg)
			}
			return tx.t.Ack(msg)
		}
	} else {
		op.call = func() error {
			if nack {
				return m.conn.Nack(msg)
			}
			return m.conn.Ack(msg)
		}
	}
	if (m.ended || m.closing) && op.exp != nil {
		op.exp = nil
		want = "*"
		op.prop = []string{"C16", "C17"}
	}
	op.resolve(m.now(), want)
	if f != nil {
		op.name += fmt.Sprint(f.std)
	}
	m.start(op)
}

func (m *cliModel) stepBegin(rng *rand.Rand) {
	e := &expF{cmd: "BEGIN"}
	tx := &cliTx{}
	op := &cliOp{kind: "begin", name: "Begin", exp: e, prop: []string{"C09", "C14"}}
	withErr := rng.Intn(2) == 0
	op.call = func() error {
		if withErr {
			t, err := m.conn.BeginWithError()
			tx.t = t
			return err
		}
		tx.t = m.conn.Begin()
		return nil
	}
	if m.ended || m.closing {
		op.exp = nil
		op.prop = []string{"C16", "C17"}
		if withErr {
			op.resolve(m.now(), "*")
		} else {
			op.resolve(m.now(), "")
		}
		m.start(op)
		return
	}
	op.resolve(m.now(), "")
	op.exp = nil
	m.start(op)
	synctest.Wait()
	if !op.done {
		m.fail([]string{"C09", "C14"}, "begin-blocks", "Begin does not return", nil)
		return
	}
	if tx.t == nil || tx.t.Id() == "" || tx.t.Conn() != m.conn {
		m.fail([]string{"C14", "C19"}, "transaction", "Begin returned an unusable transaction", fmt.Sprint(tx.t))
		return
	}
	tx.id = tx.t.Id()
	if p := newID(tx.id, "a transaction"); p != "" {
		m.fail([]string{"C19", "C14"}, "id-reused", p, nil)
	}
	e.std = [][2]string{{"transaction", tx.id}}
	m.expect = append(m.expect, e)
	m.txs = append(m.txs, tx)
}

func (m *cliModel) pickTx(rng *rand.Rand) *cliTx {
	var c []*cliTx
	for _, t := range m.txs {
		if !t.busy && (!t.done || rng.Intn(3) == 0) {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[rng.Intn(len(c))]
}

func (m *cliModel) stepComplete(rng *rand.Rand, tx *cliTx) {
	commit, rcpt := rng.Intn(3) > 0, rng.Intn(2) == 0
	verb := "ABORT"
	if commit {
		verb = "COMMIT"
	}
	e := &expF{cmd: verb, std: [][2]string{{"transaction", tx.id}}}
	op := &cliOp{kind: strings.ToLower(verb), name: verb + " " + tx.id, exp: e, tx: tx, prop: []string{"C14"}}
	if rcpt {
		op.kind += "-receipt"
		op.prop = []string{"C14", "C10"}
		e.receipt = "*"
		op.confirm = true
	}
	op.call = func() error {
		switch {
		case commit && rcpt:
			return tx.t.CommitWithReceipt()
		case commit:
			return tx.t.Commit()
		case rcpt:
			return tx.t.AbortWithReceipt()
		default:
			return tx.t.Abort()
		}
	}
	switch {
	case tx.done:
		op.exp, op.confirm = nil, false
		op.resolve(m.now(), stomp.ErrCompletedTransaction.Error())
	case m.ended || m.closing:
		op.exp, op.confirm = nil, false
		op.prop = []string{"C16", "C17"}
		op.resolve(m.now(), "*")
	case rcpt:
		tx.busy = true
	default:
		op.resolve(m.now(), "")
		tx.done = true
	}
	m.start(op)
}

// ---- what the peer does

func (m *cliModel) peerSend(f *F) {
	m.logf("%v peer sends %v", m.now(), f)
	m.sig = append(m.sig, "<"+f.Cmd)
	if m.peer.send(f) == nil {
		m.nIn++
	}
}

func (m *cliModel) message(rng *rand.Rand, subID string) *F {
	m.nMsg++
	f := mk("MESSAGE")
	if rng.Intn(10) > 0 {
		f.H = append(f.H, [2]string{"destination", m.dest(rng)})
	}
	if rng.Intn(20) > 0 {
		if m.lastMid == "" || rng.Intn(8) > 0 {
			m.lastMid = fmt.Sprintf("mid-%d%s", m.nMsg, randText(rng, 2))
		} else {
			m.w.r.Count("message_ids_repeated", 1) // as when a message is delivered again
		}
		f.H = append(f.H, [2]string{"message-id", m.lastMid})
	}
	f.H = append(f.H, [2]string{"subscription", subID})
	if rng.Intn(10) > 0 {
		f.H = append(f.H, [2]string{"ack", fmt.Sprintf("ack-%d%s", m.nMsg, randText(rng, 2))})
	}
	if ct := m.contentType(rng); ct != "" {
		f.H = append(f.H, [2]string{"content-type", ct})
	}
	n := rng.Intn(4)
	if rng.Intn(60) == 0 {
		n = 20 + rng.Intn(100)
	}
	for i := 0; i < n; i++ {
		name := randName(rng)
		if rng.Intn(6) == 0 {
			name = []string{"receipt-id", "message", "receipt", "transaction", "heart-beat"}[rng.Intn(5)]
		}
		f.H = append(f.H, [2]string{name, longText(rng, 4)})
	}
	f.Body = m.body(rng)
	if bytes.Contains(f.Body, []byte{0}) || rng.Intn(2) == 0 {
		f.H = append(f.H, [2]string{"content-length", fmt.Sprint(len(f.Body))})
	}
	rng.Shuffle(len(f.H), func(i, j int) { f.H[i], f.H[j] = f.H[j], f.H[i] })
	// the subscription this is for is the first entry
	for i := range f.H {
		if f.H[i][0] == "subscription" {
			f.H[i][1] = subID
			break
		}
	}
	return f
}

func (m *cliModel) stepMessage(rng *rand.Rand) {
	if s := m.pickSub(rng, "active", "active", "active", "closing", "lost"); s != nil && rng.Intn(8) > 0 {
		if s.gate != nil && len(s.sent) >= s.limit {
			return
		}
		if s.state == "lost" {
			for _, o := range m.subs {
				if o.id == s.id && o != s && o.state != "lost" {
					return // the id belongs to another one now
				}
			}
		}
		f := m.message(rng, s.id)
		m.peerSend(f)
		if s.state != "lost" {
			s.sent = append(s.sent, &cliMsg{f: f, seq: m.nMsg})
		}
		m.r.Count("messages_sent", 1)
		return
	}
	// for a subscription that does not exist (any more)
	id := "nobody"
	if s := m.pickSub(rng, "closed"); s != nil && rng.Intn(2) == 0 {
		id = s.id
		for _, t := range m.subs {
			if t.id == id && t.state != "closed" {
				return
			}
		}
	} else if op := m.pending(rng); op != nil && op.receipt != "" && rng.Intn(2) == 0 && op.kind != "unsubscribe" {
		id = op.receipt // looks like an answer, but is none
	}
	f := m.message(rng, id)
	if rng.Intn(10) == 0 {
		f = mk("MESSAGE", "message-id", "x").with([]byte("no subscription"))
	}
	m.peerSend(f)
}

func (m *cliModel) pending(rng *rand.Rand) *cliOp {
	var c []*cliOp
	for _, op := range m.ops {
		if op.confirm && !op.due && op.receipt != "" {
			c = append(c, op)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[rng.Intn(len(c))]
}

func (m *cliModel) stepReceipt(rng *rand.Rand) {
	k := rng.Intn(10)
	op := m.pending(rng)
	if op != nil && k < 7 {
		m.receiptFor(op)
		if rng.Intn(6) == 0 && !m.ended {
			m.peerSend(mk("RECEIPT", "receipt-id", op.receipt)) // twice
		}
		return
	}
	if len(m.late) > 0 && k < 9 {
		id := m.late[rng.Intn(len(m.late))]
		if s := m.owed(id); s != nil {
			s.receipted = true
		} else {
			for _, op := range m.ops {
				if op.confirm && !op.due && op.receipt == id {
					return // of a subscription that has the id of an earlier one
				}
			}
		}
		m.peerSend(mk("RECEIPT", "receipt-id", id))
		m.r.Count("late_receipts", 1)
		return
	}
	id := "receipt-of-nobody"
	if op != nil && rng.Intn(2) == 0 {
		id = nearMiss(rng, op.receipt)
	} else if s := m.pickSub(rng, "active"); s != nil && rng.Intn(2) == 0 {
		id = s.id
	} else if len(m.txs) > 0 {
		id = m.txs[rng.Intn(len(m.txs))].id
	}
	for _, op := range m.ops {
		if op.receipt == id {
			return
		}
	}
	m.peerSend(mk("RECEIPT", "receipt-id", id))
}

// nearMiss is not id, but looks much like it.
func nearMiss(rng *rand.Rand, id string) string {
	alt := []string{" " + id, id + " ", "\t" + id, id + "\n", "0" + id, "+" + id, id + ".0", id + "0", id + "-", "#" + id, id + ",", "0x" + id, id + "\\c", ""}
	if len(id) > 1 {
		alt = append(alt, id[1:], id[:len(id)-1], id+id)
	}
	if up := strings.ToUpper(id); up != id {
		alt = append(alt, up)
	}
	return alt[rng.Intn(len(alt))]
}

// owed is the first subscription whose UNSUBSCRIBE with this receipt id has not been answered and was given up.
func (m *cliModel) owed(id string) *cliSub {
	for _, s := range m.subs {
		if s.state == "lost" && !s.receipted && s.unsubOp != nil && s.unsubOp.receipt == id && id != "" {
			return s
		}
	}
	return nil
}

func (m *cliModel) receiptFor(op *cliOp) {
	for s := m.owed(op.receipt); s != nil && op.kind == "unsubscribe"; s = m.owed(op.receipt) {
		// the server answers the UNSUBSCRIBE of the earlier subscription with the same id first
		m.peerSend(mk("RECEIPT", "receipt-id", op.receipt))
		s.receipted = true
		m.r.Count("receipts_for_former_subs", 1)
	}
	f := mk("RECEIPT", "receipt-id", op.receipt)
	if m.rng.Intn(4) == 0 {
		f.H = append([][2]string{{"x-receipt", "1"}}, f.H...)
	}
	if m.rng.Intn(8) == 0 {
		f.Body = []byte("surprise")
	}
	m.peerSend(f)
	m.r.Count("receipts_sent", 1)
	op.resolve(m.now(), "")
	if op.tx != nil && (op.kind == "commit-receipt" || op.kind == "abort-receipt") {
		op.tx.done, op.tx.busy = true, false
	}
	if op.kind == "unsubscribe" {
		op.sub.state = "closed"
	}
	if op.kind == "disconnect" {
		m.endConn("*", true)
	}
}

// endConn: the network connection is over; what everybody must get.
func (m *cliModel) endConn(text string, graceful bool) {
	m.ended = true
	m.endText = text
	for _, op := range m.ops {
		if !op.due {
			if op.kind == "unsubscribe" {
				op.resolve(m.now(), "*")
			}
			op.resolve(m.now(), text)
			op.prop = append(op.prop, "C16")
			if text != "*" {
				op.prop = append(op.prop, "C10")
			}
			if op.tx != nil {
				op.tx.busy = false
			}
		}
	}
	for _, s := range m.subs {
		switch s.state {
		case "active":
			s.state, s.errText = "ended", text
			s.mayErr = graceful
		case "closing":
			s.state, s.errText, s.mayErr = "ended", text, true
		}
	}
}

func (m *cliModel) stepEnd(rng *rand.Rand) {
	if m.ended {
		return
	}
	k := rng.Intn(10)
	if m.closing && k >= 6 {
		k = 0
	}
	if k == 9 && m.prof["disc"] == 0 {
		k = 8
	}
	switch k {
	case 0:
		m.logf("%v peer closes", m.now())
		m.peer.c.Close()
		m.endConn("*", false)
	case 1:
		m.logf("%v reset", m.now())
		m.peer.c.Reset()
		m.endConn("*", false)
	case 2, 3:
		text := "error " + m.tag() + randText(rng, 2)
		f := mk("ERROR", "message", text)
		if rng.Intn(4) == 0 {
			f.H = nil
			text = "*"
		}
		if rng.Intn(3) == 0 {
			if op := m.pending(rng); op != nil {
				f.H = append(f.H, [2]string{"receipt-id", op.receipt})
			}
		}
		f.Body = m.body(rng)
		f.H = append(f.H, [2]string{"content-length", fmt.Sprint(len(f.Body))})
		m.peerSend(f)
		m.endConn(text, false)
	case 4:
		m.logf("%v peer sends garbage", m.now())
		g := [][]byte{[]byte("NONSENSE\n\n\x00"), []byte("MESSAGE\nnocolon\n\n\x00"), []byte("RECEIPT\ncontent-length:3\n\nabcd\x00"), []byte("\x00\x00\n"), []byte("MESSAGE\ncontent-length:-1\n\n\x00")}
		_ = m.peer.raw(g[rng.Intn(len(g))])
		m.endConn("*", false)
	case 5:
		// in the middle of a frame
		id := "x"
		if s := m.pickSub(rng, "active"); s != nil {
			id = s.id
		}
		b := m.message(rng, id).enc()
		cut := rng.Intn(len(b))
		if op := m.pending(rng); op != nil && rng.Intn(2) == 0 {
			b = mk("RECEIPT", "receipt-id", op.receipt).enc()
			cut = rng.Intn(len(b))
		}
		m.logf("%v peer sends %d of %d bytes of a frame and closes", m.now(), cut, len(b))
		_ = m.peer.raw(b[:cut])
		m.peer.c.Close()
		m.endConn("*", false)
	case 6:
		// nothing can be written any more: the next frame shows it
		n := rng.Intn(40)
		m.logf("%v outgoing direction breaks after %d bytes", m.now(), n)
		m.a.CutOutgoing(n, errPipe)
		synctest.Wait()
		for i := 0; i < 60 && !m.ended && m.a.closeCount.Load() == 0; i++ {
			op := &cliOp{kind: "send", name: "Send into a broken connection", call: func() error { return m.conn.Send("/queue/broken", "", []byte("x")) }}
			op.resolve(m.now(), "?")
			m.start(op)
			synctest.Wait()
		}
		m.loose = true
		if m.a.closeCount.Load() == 0 {
			m.fail([]string{"C16"}, "write-error-ignored", "frames cannot be written, but the connection is not closed", nil)
			return
		}
		m.endConn("*", false)
	case 7:
		m.logf("%v peer sends RECEIPT without receipt-id", m.now())
		m.peerSend(mk("RECEIPT", "x", "y"))
		m.endConn("*", false)
	case 8:
		m.stepMust(rng)
	case 9:
		m.stepDisconnect(rng)
	}
}

func (m *cliModel) stepMust(rng *rand.Rand) {
	op := &cliOp{kind: "mustdisconnect", name: "MustDisconnect", prop: []string{"C16", "C17"}}
	op.call = func() error { return m.conn.MustDisconnect() }
	op.resolve(m.now(), "")
	if !m.ended {
		m.endConn("*", true)
		op.want = ""
	}
	m.start(op)
}

func (m *cliModel) stepDisconnect(rng *rand.Rand) {
	op := &cliOp{kind: "disconnect", name: "Disconnect", confirm: true, timeout: m.discT,
		timeText: stomp.ErrDisconnectReceiptTimeout.Error(), prop: []string{"C17", "C10", "C11"}}
	op.call = func() error { return m.conn.Disconnect() }
	if m.ended || m.closing {
		op.confirm = false
		op.prop = []string{"C17", "C16"}
		op.resolve(m.now(), "")
	} else {
		op.exp = &expF{cmd: "DISCONNECT", receipt: "*"}
		m.closing = true
	}
	m.start(op)
}

func (m *cliModel) stepTime(rng *rand.Rand) {
	d := time.Duration(rng.Intn(30)) * time.Millisecond
	if rng.Intn(6) == 0 {
		d = time.Duration(rng.Intn(120)) * time.Second
	}
	m.logf("%v %v pass", m.now(), d)
	m.sig = append(m.sig, "t")
	until := m.now() + d
	// nothing else happens meanwhile, so the deadlines inside are known
	for {
		var next *cliOp
		for _, op := range m.ops {
			if op.confirm && !op.due && op.timeout > 0 && op.started+op.timeout <= until {
				if next == nil || op.started+op.timeout < next.started+next.timeout {
					next = op
				}
			}
		}
		if next == nil {
			break
		}
		at := next.started + next.timeout
		time.Sleep(at - m.now())
		var same []*cliOp
		disc := false
		for _, op := range m.ops {
			if op.confirm && !op.due && op.timeout > 0 && op.started+op.timeout == at {
				same = append(same, op)
				disc = disc || op.kind == "disconnect"
			}
		}
		for _, op := range same {
			if op.kind == "disconnect" {
				continue
			}
			if op.resolve(at, op.timeText); disc {
				op.want = "*" // the connection ends at the same instant
			}
			op.late = true
			m.late = append(m.late, op.receipt)
			m.r.Count("timeouts", 1)
			if op.kind == "unsubscribe" {
				op.sub.state = "lost"
			}
		}
		for _, op := range same {
			if op.kind == "disconnect" {
				op.resolve(at, op.timeText)
				op.late = true
				m.r.Count("timeouts", 1)
				m.endConn("*", true)
			}
		}
		m.verify()
		if m.failed {
			return
		}
	}
	time.Sleep(until - m.now())
}

// ---- verification

func (m *cliModel) verify() {
	synctest.Wait()
	if m.failed {
		return
	}
	m.r.Eval(strings.Join(tail(m.sig, 4), ",")+"|"+m.version, true)
	// frames
	got := m.peer.take()
	if m.peer.beats() > 0 {
		m.fail([]string{"C18"}, "uninvited-beat", "the client sent a heart-beat to a server that wants none", nil)
		return
	}
	for _, g := range got {
		if g.F.Cmd == "" {
			continue
		}
		m.logf("%v wire %v", g.At, g.F)
	}
	for _, p := range m.peer.problems() {
		if !m.loose {
			m.fail([]string{"C09", "C17", "C16"}, "wire-malformed", "what the client wrote is not a sequence of frames: "+p, nil)
			return
		}
	}
	if !m.loose {
		for i, g := range got {
			if i >= len(m.expect) {
				m.fail(m.propsOf(g.F, "extra"), "extra-frame", fmt.Sprintf("the client sent a frame nobody asked for: %v", g.F), nil)
				return
			}
			e := m.expect[i]
			if d := e.match(g.F); d != "" {
				m.fail(m.propsOf(g.F, e.cmd), "wrong-frame", fmt.Sprintf("the client sent %v, expected %v: %s", g.F, e, d), nil)
				return
			}
			m.r.Count("frames_checked", 1)
			if e.receipt == "*" {
				id := g.F.val("receipt")
				if e.op != nil {
					e.op.receipt = id
				}
				if e.cmd != "UNSUBSCRIBE" {
					if p := newID(id, "a receipt"); p != "" {
						m.fail([]string{"C19", "C10"}, "id-reused", p, g.F.String())
						return
					}
				}
			} else if e.receipt != "" && e.op != nil {
				e.op.receipt = e.receipt
			}
			if e.id == "*" && e.sub != nil && e.sub.s != nil && e.sub.s.Id() != g.F.val("id") {
				m.fail([]string{"C19", "C09"}, "sub-id", fmt.Sprintf("the subscription reports the id %q, on the wire it is %q", e.sub.s.Id(), g.F.val("id")), nil)
				return
			}
		}
		if len(got) < len(m.expect) && !m.ended {
			e := m.expect[len(got)]
			m.fail(m.propsOf(nil, e.cmd), "missing-frame", fmt.Sprintf("a call has put nothing on the wire, expected %v", e), nil)
			return
		}
	}
	m.nOut += len(got)
	m.expect = nil
	// calls
	m.w.mu.Lock()
	var rest []*cliOp
	for _, op := range m.ops {
		if op.seenEnd {
			continue
		}
		switch {
		case op.done && !op.due:
			m.fail(append([]string{}, op.prop...), "early-return", fmt.Sprintf("%s returned %v without confirmation", op.name, op.err), nil)
		case !op.done && op.due:
			p := append([]string{}, op.prop...)
			if m.ended {
				p = append(p, "C16")
			}
			m.fail(p, "no-return", fmt.Sprintf("%s does not return, expected %q", op.name, op.want), stompStates())
		case op.done:
			op.seenEnd = true
			ok := false
			switch op.want {
			case "?":
				ok = true
			case "":
				ok = op.err == nil
			case "*":
				ok = op.err != nil
			default:
				ok = op.err != nil && op.err.Error() == op.want
			}
			if !ok {
				m.fail(op.prop, "wrong-result", fmt.Sprintf("%s returned %v, expected %q", op.name, op.err, op.want), nil)
			} else if op.late && (op.at < op.wantAt || op.at > op.wantAt+time.Millisecond) {
				m.fail([]string{"C11"}, "timeout-at", fmt.Sprintf("%s timed out after %v, the timeout is %v", op.name, op.at-op.started, op.timeout), nil)
			}
			m.r.Count("calls_checked", 1)
			m.r.Count("op_"+op.kind, 1)
			m.logf("%v %s returned %v", op.at, op.name, op.err)
		default:
			rest = append(rest, op)
		}
	}
	m.ops = rest
	m.w.mu.Unlock()
	if m.failed {
		return
	}
	for _, s := range m.subs {
		m.verifySub(s)
		if m.failed {
			return
		}
	}
	st := m.conn.Stats()
	if m.stats && !m.ended && !m.loose {
		if st.WritesSent != int64(m.nOut) || st.ReadsReceived != int64(m.nIn) {
			m.fail([]string{"C20"}, "stats", fmt.Sprintf("statistics say %d sent and %d received; it is %d and %d", st.WritesSent, st.ReadsReceived, m.nOut, m.nIn), nil)
		}
		m.r.Count("stats_checked", 1)
	} else if !m.stats && (st.WritesSent != 0 || st.ReadsReceived != 0) {
		m.fail([]string{"C20"}, "stats-disabled", fmt.Sprintf("statistics are off, but say %d sent and %d received", st.WritesSent, st.ReadsReceived), nil)
	}
	if m.ended {
		if m.a.closeCount.Load() == 0 {
			m.fail([]string{"C16", "C17"}, "not-closed", "the network connection is not closed", nil)
		}
	} else if m.a.closeCount.Load() != 0 {
		m.fail(append([]string{"C16"}, cliAll...), "closed", "the client closed the network connection of a healthy connection", stompStates())
	}
}

func (m *cliModel) propsOf(f *F, exp string) []string {
	p := []string{"C09"}
	c := exp
	if f != nil && exp == "extra" {
		c = f.Cmd
		p = append(p, "C16", "C17")
		if f.Cmd == "UNSUBSCRIBE" {
			p = append(p, "C15")
		}
	}
	switch c {
	case "ACK", "NACK":
		p = append(p, "C13", "C14")
	case "BEGIN", "COMMIT", "ABORT":
		p = append(p, "C14")
	case "UNSUBSCRIBE", "SUBSCRIBE":
		p = append(p, "C15")
	case "DISCONNECT":
		p = append(p, "C17")
	case "SEND":
		p = append(p, "C14", "C10")
	}
	return p
}

func (m *cliModel) verifySub(s *cliSub) {
	s.mu.Lock()
	got := append([]gotMsg{}, s.got...)
	closed := s.closed
	s.mu.Unlock()
	asleep := s.gate != nil
	nErr := 0
	n := 0
	prop := []string{"C12", "C15", "C16"}
	for i, g := range got {
		if g.err != nil {
			nErr++
			if s.state == "active" || (s.state == "closing") {
				m.fail(prop, "error-message", fmt.Sprintf("subscription %s got the error %v, the connection is fine", s.id, g.err), nil)
				return
			}
			if s.state == "closed" {
				m.fail([]string{"C15"}, "error-message", fmt.Sprintf("subscription %s was unsubscribed successfully, but got the error %v", s.id, g.err), nil)
				return
			}
			if i != len(got)-1 {
				m.fail(prop, "after-error", fmt.Sprintf("subscription %s got something after the error", s.id), nil)
				return
			}
			if s.state == "ended" && s.errText != "*" && g.err.Error() != s.errText {
				m.fail([]string{"C16", "C10"}, "error-text", fmt.Sprintf("subscription %s got the error %q, the server sent %q", s.id, g.err, s.errText), nil)
				return
			}
			continue
		}
		if n >= len(s.sent) {
			if s.state == "lost" {
				continue // nothing is said about these
			}
			m.fail([]string{"C12"}, "extra-message", fmt.Sprintf("subscription %s got a message that was not for it, or twice: %v", s.id, g.f), nil)
			return
		}
		w := s.sent[n]
		if d := cliContentDiff(g, w.f, s, m.conn); d != "" {
			if s.state == "lost" {
				continue
			}
			m.fail([]string{"C12"}, "wrong-message", fmt.Sprintf("subscription %s, message %d: %s", s.id, n, d), map[string]string{"got": g.f.String(), "sent": w.f.String()})
			return
		}
		n++
	}
	if nErr > 1 {
		m.fail(prop, "two-errors", fmt.Sprintf("subscription %s got %d errors", s.id, nErr), nil)
		return
	}
	if asleep {
		return
	}
	if n < len(s.sent) && s.state != "lost" {
		m.fail(prop, "lost-message", fmt.Sprintf("subscription %s (%s): %d of %d messages have been delivered", s.id, s.state, n, len(s.sent)), stompStates())
		return
	}
	m.r.Max("max_deliveries_per_subscription", n)
	switch s.state {
	case "active":
		if closed {
			m.fail([]string{"C15", "C12", "C16"}, "closed-early", "the channel of an active subscription was closed: "+s.id, nil)
			return
		}
		if !s.s.Active() {
			m.fail([]string{"C15"}, "inactive", "Active is false for an active subscription: "+s.id, nil)
			return
		}
	case "closing":
		if closed && !m.closing {
			m.fail([]string{"C15"}, "closed-early", "the channel was closed before the UNSUBSCRIBE was confirmed: "+s.id, nil)
			return
		}
	case "closed":
		if !closed {
			m.fail([]string{"C15"}, "not-closed", "the channel is not closed after a successful unsubscribe: "+s.id, stompStates())
			return
		}
	case "ended":
		if !closed {
			m.fail([]string{"C16", "C17"}, "not-closed", "the channel is not closed although the connection has ended: "+s.id, stompStates())
			return
		}
		if nErr == 0 && !s.mayErr {
			m.fail([]string{"C16"}, "no-error", "the connection was lost, but the subscription's channel was closed without an error: "+s.id, nil)
			return
		}
	case "lost":
		if m.ended && !closed {
			m.fail([]string{"C16", "C11"}, "not-closed", "the channel is not closed although the connection has ended: "+s.id, stompStates())
			return
		}
	}
	if s.state != "active" && s.s.Active() {
		m.fail([]string{"C15", "C16"}, "active", fmt.Sprintf("Active is true for a subscription that is %s: %s", s.state, s.id), nil)
	}
}

func cliContentDiff(g gotMsg, w *F, s *cliSub, conn *stomp.Conn) string {
	if !bytes.Equal(g.f.Body, w.Body) {
		return "body differs"
	}
	if len(g.f.H) != len(w.H) {
		return "headers differ"
	}
	for i := range w.H {
		if w.H[i] != g.f.H[i] {
			return fmt.Sprintf("header %d is %q, sent was %q", i, g.f.H[i], w.H[i])
		}
	}
	if g.m.Destination != w.val("destination") || g.m.ContentType != w.val("content-type") {
		return fmt.Sprintf("destination %q, content type %q", g.m.Destination, g.m.ContentType)
	}
	if g.m.Subscription != s.s || g.m.Conn != conn {
		return "it names another subscription or connection"
	}
	if g.m.ShouldAck() != (s.ack != stomp.AckAuto) {
		return "ShouldAck is wrong"
	}
	return ""
}

// ---- the driver

func (m *cliModel) step(rng *rand.Rand) {
	switch k := pickW(rng, m.prof); k {
	case "send":
		n := 1
		if rng.Intn(5) == 0 {
			n = 1 + rng.Intn(30)
			if m.large {
				n *= 5
			}
		}
		if n > 1 {
			m.burst(rng, n)
		} else {
			m.stepSend(rng, nil, false)
		}
	case "sendr":
		m.stepSend(rng, nil, true)
	case "sub":
		for k := 0; len(m.subs) < m.maxSubs && (k == 0 || m.maxSubs > 8 && k < 20 && !m.failed); k++ {
			if k > 0 {
				m.verify()
			}
			m.stepSubscribe(rng, nil)
		}
	case "unsub":
		if s := m.pickSub(rng, "active", "active", "active", "closing", "closed", "lost", "ended"); s != nil {
			if s.gate != nil {
				m.wake(s)
			}
			m.stepUnsubscribe(rng, s)
		}
	case "msg":
		n := 1
		if rng.Intn(4) == 0 {
			n = 1 + rng.Intn(40)
			if m.large {
				n *= 5
			}
		}
		for i := 0; i < n; i++ {
			m.stepMessage(rng)
		}
	case "rcpt":
		m.stepReceipt(rng)
	case "ack":
		m.stepAck(rng, nil)
	case "begin":
		if len(m.txs) < m.maxTxs {
			m.stepBegin(rng)
		}
	case "txsend", "txack", "txend":
		if tx := m.pickTx(rng); tx != nil {
			switch k {
			case "txsend":
				m.stepSend(rng, tx, rng.Intn(4) == 0)
			case "txack":
				m.stepAck(rng, tx)
			default:
				m.stepComplete(rng, tx)
			}
		}
	case "hb":
		m.peerSend(&F{})
	case "other":
		// frames a client does not expect
		m.peerSend([]*F{mk("CONNECTED", "version", "1.2"), mk("SEND", "destination", "x"), mk("CONNECT"), mk("ACK", "id", "1"), mk("DISCONNECT", "receipt", "1")}[rng.Intn(5)])
	case "time":
		m.stepTime(rng)
	case "wake":
		for _, s := range m.subs {
			if s.gate != nil {
				m.wake(s)
			}
		}
	case "end":
		m.stepEnd(rng)
	case "disc":
		m.stepDisconnect(rng)
	case "must":
		m.stepMust(rng)
	}
	m.verify()
}

func (m *cliModel) wake(s *cliSub) {
	if s.gate != nil {
		close(s.gate)
		s.gate = nil
		synctest.Wait()
	}
}

// burst makes several calls in a row on one goroutine.
func (m *cliModel) burst(rng *rand.Rand, n int) {
	if m.ended || m.closing {
		return
	}
	op := &cliOp{kind: "send-burst", name: fmt.Sprintf("%d sends in a row", n), prop: []string{"C09"}}
	type one struct {
		dest string
		body []byte
	}
	var l []one
	for i := 0; i < n; i++ {
		o := one{m.dest(rng), m.body(rng)}
		l = append(l, o)
		m.expect = append(m.expect, &expF{cmd: "SEND", body: o.body, std: [][2]string{{"content-length", fmt.Sprint(len(o.body))}, {"destination", o.dest}}})
	}
	op.call = func() error {
		for _, o := range l {
			if err := m.conn.Send(o.dest, "", o.body); err != nil {
				return err
			}
		}
		return nil
	}
	op.resolve(m.now(), "")
	m.start(op)
}

func pickW(rng *rand.Rand, w map[string]int) string {
	ks := sortedKeys(w)
	t := 0
	for _, k := range ks {
		t += w[k]
	}
	n := rng.Intn(t)
	for _, k := range ks {
		n -= w[k]
		if n < 0 {
			return k
		}
	}
	return ks[0]
}

func (r *R) cliStepwise(label string, n int, prof func(rng *rand.Rand) map[string]int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		r.inClient(rng, func(w *srvWorld) {
			m := &cliModel{w: w, r: r, rng: rng, prof: prof(rng), stats: rng.Intn(2) == 0 || r.Prop == "C20"}
			pick := func() time.Duration {
				switch rng.Intn(4) {
				case 0:
					return 0
				case 1:
					if rng.Intn(3) == 0 { // down to a nanosecond
						return time.Duration(1 + rng.Intn([]int{10, 1000, 1000000, 5000000}[rng.Intn(4)]))
					}
					return time.Duration(1+rng.Intn(30)) * time.Millisecond
				default:
					return time.Duration(1+rng.Intn(60)) * time.Second
				}
			}
			m.rcvT, m.unsubT, m.discT = pick(), pick(), pick()
			if r.Prop == "C11" {
				for _, t := range []*time.Duration{&m.rcvT, &m.unsubT, &m.discT} {
					if *t == 0 {
						*t = time.Duration(1 + rng.Intn(1000000))
					}
				}
			}
			if !m.connect() {
				return
			}
			steps := 10 + rng.Intn(60)
			m.maxSubs, m.maxTxs = 8, 10
			if rng.Intn(25) == 0 { // a great deal of everything
				m.maxSubs, m.maxTxs, m.large = 20+rng.Intn(60), 100, true
				steps += 100
				r.Count("large_histories", 1)
			}
			post := 0
			for j := 0; j < steps && !m.failed && post < 12; j++ {
				m.step(rng)
				if m.ended {
					post++
				}
			}
			m.finish(rng)
			r.Count("histories", 1)
			if i < 2 {
				r.Sample("stepwise history", tail(m.log, 25))
			}
		})
	})
}

func (m *cliModel) finish(rng *rand.Rand) {
	for _, s := range m.subs {
		m.wake(s)
	}
	m.verify()
	// everything still pending must end with the connection
	for k := 0; !m.ended && !m.failed && k < 50; k++ {
		if m.closing {
			if op := m.pending(rng); op != nil && rng.Intn(3) > 0 {
				m.receiptFor(op)
			} else {
				m.stepEnd(rng)
			}
		} else {
			m.stepEnd(rng)
		}
		m.verify()
	}
	if m.failed {
		// release everything
		m.peer.c.Reset()
		_ = m.a.Close()
		return
	}
	for j := 0; j < 4 && !m.failed; j++ {
		switch rng.Intn(6) {
		case 0:
			m.stepSend(rng, nil, rng.Intn(2) == 0)
		case 1:
			m.stepSubscribe(rng, nil)
		case 2:
			m.stepDisconnect(rng)
		case 3:
			m.stepMust(rng)
		case 4:
			m.stepBegin(rng)
		case 5:
			if tx := m.pickTx(rng); tx != nil {
				m.stepComplete(rng, tx)
			}
		}
		m.verify()
	}
	m.peer.c.Reset()
	synctest.Wait()
	// time-outs that are still running must not keep anything alive
	time.Sleep(10 * time.Minute)
	synctest.Wait()
	if n := libGoroutines(); n != m.w.base && !m.failed {
		m.fail([]string{"C16", "C17", "C15", "C11"}, "goroutines-left", fmt.Sprintf("%d goroutines of the library are left after the connection has ended", n-m.w.base), stompStates())
	}
}

var _ atomic.Int64
