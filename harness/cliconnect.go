package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
)

func init() {
	register("C07", checkC07)
	register("C08", checkC08)
}

func checkC07(r *R) {
	r.Rule("Each case is one connection attempt in virtual time (or over TCP on the loopback interface): a generated first response " +
		"(valid, refused, hostile, truncated, silent), cut into pieces that arrive at generated times, ended by silence, end of stream or reset, " +
		"with no context, a deadline or a cancellation. The expected outcome and its time come from an independent decoder. " +
		"Distinct: kind of response, ending, context, outcome.")
	r.Assume("a version header of a CONNECTED frame is not empty")
	r.Assume("a context can only interrupt the attempt when the connection is a net.Conn, and only while the response is awaited: the request can be written at once")
	r.stallMonitor()
	r.connectAttempts("attempt", r.N(12000, 240000))
	r.dialAttempts("dial", r.N(300, 6000))
	r.dialBlocked("dial-blocked", r.N(6, 30))
	r.Require("connections", 2000)
	r.Require("refused", 2000)
	r.Require("context_ended", 500)
	r.Require("dials", 200)
}

func checkC08(r *R) {
	r.Rule("Each case is one connection attempt with a generated sequence of connect options; every byte written before the response is compared " +
		"with a model of the options. Distinct: the option sequence.")
	r.Assume("heart-beat durations are not negative; custom headers have a name")
	r.stallMonitor()
	r.connectOptions("options", r.N(15000, 300000))
	r.dialOptions("dial-options", r.N(150, 3000))
	r.Require("requests_checked", 5000)
	r.Require("failing_options", 500)
}

// plainConn hides that a connection is a net.Conn.
type plainConn struct{ c *MemConn }

func (p plainConn) Read(b []byte) (int, error)  { return p.c.Read(b) }
func (p plainConn) Write(b []byte) (int, error) { return p.c.Write(b) }
func (p plainConn) Close() error                { return p.c.Close() }

// a response of the peer and what a client must make of it
type response struct {
	kind string
	b    []byte
}

func connectedFrame(rng *rand.Rand) (f *F, kind string) {
	f = mk("CONNECTED")
	kind = "connected"
	add := func(k, v string) { f.H = append(f.H, [2]string{k, v}) }
	text := func() string { return []string{"", "s1", "RabbitMQ/3.1", randText(rng, 5)}[rng.Intn(4)] }
	switch rng.Intn(8) {
	case 0:
		kind += " no-version"
	case 1:
		add("version", []string{"1.3", "2.0", "1.2 ", " 1.2", "1", "1.20", "1.1,1.2", "v1.2", "0.9", "1.0.0", "12"}[rng.Intn(11)])
		kind += " unsupported-version"
	default:
		add("version", []string{"1.0", "1.1", "1.2"}[rng.Intn(3)])
		kind += " version"
	}
	switch rng.Intn(6) {
	case 0, 1:
	case 2:
		bad := []string{"", ",", "1", "1,", ",1", "a,b", "1,2,3", "-1,0", "0,-1", "1.5,2", " 1,2", "1, 2", "1,2 ", "+1,2", "9223372036854775808,0",
			"0,9223372036854775807", "0x1,2", "1;2", "99999999999999999999999,1"}
		add("heart-beat", bad[rng.Intn(len(bad))])
		kind += " bad-heart-beat"
	default:
		v := func() string {
			return []string{"0", "0", strconv.Itoa(1 + rng.Intn(100000)), "007", "9223372036854"}[rng.Intn(5)]
		}
		add("heart-beat", v()+","+v())
		kind += " heart-beat"
	}
	if rng.Intn(2) == 0 {
		add("session", text())
		kind += " session"
	}
	if rng.Intn(2) == 0 {
		add("server", text())
		kind += " server"
	}
	for rng.Intn(4) == 0 {
		// a repeated header: the first one counts
		add([]string{"version", "session", "server", "heart-beat"}[rng.Intn(4)], []string{"1.2", "9.9", "x", "3,4"}[rng.Intn(4)])
		kind += " again"
	}
	for rng.Intn(3) == 0 {
		add(randName(rng), randText(rng, 4))
		kind += " other"
	}
	rng.Shuffle(len(f.H), func(i, j int) {
		// repeated headers keep no fixed order; the decoder decides which comes first
		f.H[i], f.H[j] = f.H[j], f.H[i]
	})
	for i, e := range f.H { // an empty version is not judged
		if e[0] == "version" && e[1] == "" {
			f.H[i][1] = "1.1"
		}
	}
	switch rng.Intn(6) {
	case 0:
		f.Body = randBody(rng, rng.Intn(40), false)
		kind += " body"
	case 1:
		f.Body = randBody(rng, rng.Intn(40), true)
		f.H = append(f.H, [2]string{"content-length", strconv.Itoa(len(f.Body))})
		kind += " length"
	}
	return f, kind
}

func randResponse(rng *rand.Rand) response {
	crlf := func(b []byte) []byte {
		if rng.Intn(4) > 0 {
			return b
		}
		i := strings.Index(string(b), "\n\n")
		return []byte(strings.ReplaceAll(string(b[:i+2]), "\n", "\r\n") + string(b[i+2:]))
	}
	f, kind := connectedFrame(rng)
	switch rng.Intn(12) {
	case 0, 1, 2, 3, 4:
		return response{kind, crlf(f.enc())}
	case 5:
		e := mk("ERROR")
		kind = "error"
		if rng.Intn(3) > 0 {
			e.H = append(e.H, [2]string{"message", randText(rng, 6)})
			kind += " message"
		}
		if rng.Intn(3) == 0 {
			e.H = append(e.H, [2]string{"version", "1.2"}, [2]string{"x", randText(rng, 3)})
		}
		if rng.Intn(2) == 0 {
			e.Body = randBody(rng, rng.Intn(60), false)
		}
		return response{kind, crlf(e.enc())}
	case 6:
		c := []string{"MESSAGE", "RECEIPT", "SEND", "CONNECT", "STOMP", "ACK", "DISCONNECT", "SUBSCRIBE"}[rng.Intn(8)]
		f.Cmd = c
		return response{"frame " + c, crlf(f.enc())}
	case 7:
		return response{"heart-beat first", append([]byte([]string{"\n", "\r\n"}[rng.Intn(2)]), f.enc()...)}
	case 8:
		b := f.enc()
		return response{"truncated", b[:rng.Intn(len(b))]}
	case 9:
		b := f.enc()
		for k := 0; k <= rng.Intn(3); k++ {
			i := rng.Intn(len(b))
			switch rng.Intn(3) {
			case 0:
				b[i] = byte(rng.Intn(256))
			case 1:
				b = append(b[:i:i], b[i+1:]...)
			case 2:
				b = append(b[:i:i], append([]byte{"\n\r:\x00\\C"[rng.Intn(6)]}, b[i:]...)...)
			}
			if len(b) == 0 {
				break
			}
		}
		return response{"mutated", b}
	case 10:
		g := []string{"HTTP/1.1 400 Bad Request\r\n\r\n", "connected\nversion:1.2\n\n\x00", "CONNECTED version:1.2\n\n\x00", "\x00", "CONNECTED\nversion\n\n\x00",
			"CONNECTED\n:1.2\n\n\x00", "CONNECTED\nversion:1.2\ncontent-length:3\n\nabcd\x00", "CONNECTED\nversion:1.2\ncontent-length:x\n\n\x00", " CONNECTED\n\n\x00",
			"CONNECTED \n\n\x00", "AMQP\x00\x00\x09\x01", "\x16\x03\x01\x02\x00\n", "CONNECTED\r\r\n\n\x00", "\r\r\n", "CONNECT\n\n\x00"}
		return response{"garbage", []byte(g[rng.Intn(len(g))])}
	default:
		return response{"nothing", nil}
	}
}

// connOutcome is what the response must lead to.
type connOutcome struct {
	what string // "connection", "error", "open" (nothing decided yet), "either" (not judged)
	why  string
	f    *F
	used int
}

func judgeResponse(b []byte) connOutcome {
	f, n, odd, err := dec(b)
	switch {
	case err == errMore:
		return connOutcome{what: "open", why: "incomplete"}
	case err != nil:
		return connOutcome{what: "error", why: "malformed"}
	case f.Cmd == "":
		return connOutcome{what: "error", why: "heart-beat"}
	case f.Cmd != "CONNECTED":
		return connOutcome{what: "error", why: f.Cmd, f: f}
	case odd:
		return connOutcome{what: "either", why: "undefined escape", f: f}
	}
	if v, ok := f.get("version"); ok {
		if v == "" {
			return connOutcome{what: "either", why: "empty version", f: f}
		}
		if v != "1.0" && v != "1.1" && v != "1.2" {
			return connOutcome{what: "error", why: "version", f: f}
		}
	}
	if h, ok := f.get("heart-beat"); ok {
		if _, _, ok := refHeartBeat(h); !ok {
			return connOutcome{what: "error", why: "heart-beat header", f: f}
		}
	}
	return connOutcome{what: "connection", f: f, used: n}
}

func headerList(h *frame.Header) [][2]string {
	var l [][2]string
	for i := 0; h != nil && i < h.Len(); i++ {
		k, v := h.GetAt(i)
		l = append(l, [2]string{k, v})
	}
	return l
}

// checkError judges the error for a response that is a whole frame.
func checkError(err error, f *F) string {
	if f == nil {
		return ""
	}
	if f.Cmd == "ERROR" {
		if msg := f.val("message"); msg != "" && err.Error() != msg {
			return fmt.Sprintf("the error is %q, the message of the peer's ERROR is %q", err, msg)
		}
		var e stomp.Error
		if !errors.As(err, &e) {
			return fmt.Sprintf("the error for the peer's ERROR frame is no stomp.Error but a %T", err)
		}
		if e.Frame == nil || !sameF(fromLib(e.Frame), f) {
			return fmt.Sprintf("the error carries %v instead of the peer's ERROR frame %v", e.Frame, f)
		}
	}
	return ""
}

// checkConn compares what a connection reports with the CONNECTED frame.
func checkConn(c *stomp.Conn, f *F, seen []*frame.Header, wantSeen bool) string {
	want := "1.0"
	if v, ok := f.get("version"); ok {
		want = v
	}
	if got := c.Version().String(); got != want {
		return fmt.Sprintf("the connection reports version %q, the CONNECTED frame says %q", got, want)
	}
	if got := c.Session(); got != f.val("session") {
		return fmt.Sprintf("the connection reports session %q, the CONNECTED frame says %q", got, f.val("session"))
	}
	if got := c.Server(); got != f.val("server") {
		return fmt.Sprintf("the connection reports server %q, the CONNECTED frame says %q", got, f.val("server"))
	}
	if wantSeen {
		if len(seen) != 1 {
			return fmt.Sprintf("the response headers callback was called %d times", len(seen))
		}
		if got := headerList(seen[0]); fmt.Sprint(got) != fmt.Sprint(f.H) {
			return fmt.Sprintf("the response headers callback saw %q, the CONNECTED frame has %q", got, f.H)
		}
	}
	return ""
}

func (r *R) connectAttempts(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		r.inClient(rng, func(w *srvWorld) { r.connectAttempt(rng, w) })
	})
}

func (r *R) connectAttempt(rng *rand.Rand, w *srvWorld) {
	a, b := memPipe()
	peer := &rawClient{w: w, name: "peer", c: b, srv: a, overCh: make(chan struct{})}
	if rng.Intn(2) == 0 {
		a.Fragment(randChunk(rng.Int63()))
	}
	var log []string
	failed := false
	fail := func(key, what string) {
		if !failed {
			failed = true
			r.Fail(key, what, map[string]any{"history": log, "goroutines": stompStates()})
		}
	}
	logf := func(f string, x ...any) { log = append(log, fmt.Sprintf("%v ", w.now())+fmt.Sprintf(f, x...)) }

	resp := randResponse(rng)
	// pieces and their times
	type piece struct {
		at time.Duration
		b  []byte
	}
	var pieces []piece
	at := time.Duration(0)
	gap := func() time.Duration {
		switch rng.Intn(4) {
		case 0:
			return 0
		case 1:
			return time.Duration(rng.Intn(3000)) * time.Millisecond
		default:
			return time.Duration(rng.Intn(50)) * time.Millisecond
		}
	}
	rest := resp.b
	whole := rng.Intn(2) == 0
	for len(rest) > 0 {
		n := len(rest)
		if !whole {
			n = 1 + rng.Intn(n)
			if rng.Intn(3) == 0 && n > 4 {
				n = 1 + rng.Intn(4)
			}
		}
		at += gap()
		pieces = append(pieces, piece{at, rest[:n]})
		rest = rest[n:]
	}
	// something may follow the response at once
	extra := ""
	if len(pieces) > 0 && rng.Intn(3) == 0 {
		x := []string{"\n", "\n\r\n\n", "MESSAGE\nsubscription:unknown\nmessage-id:1\ndestination:/x\n\nhi\x00", "RECEIPT\nreceipt-id:unknown-7\n\n\x00",
			"ERROR\nmessage:go away\n\n\x00"}
		k := rng.Intn(len(x))
		extra = []string{"lf", "lfs", "message", "receipt", "error"}[k]
		p := &pieces[len(pieces)-1]
		p.b = append(append([]byte{}, p.b...), x[k]...)
	}
	ending := []string{"silence", "eof", "reset"}[rng.Intn(3)]
	endAt := at + gap()
	badWrite := ""
	if rng.Intn(20) == 0 {
		badWrite = []string{"cut", "stall"}[rng.Intn(2)]
	}

	// what must happen, and when
	var acc []byte
	want := connOutcome{what: "open", why: "silence"}
	wantAt := time.Duration(-1)
	for _, p := range pieces {
		acc = append(acc, p.b...)
		if o := judgeResponse(acc); o.what != "open" {
			want, wantAt = o, p.at
			break
		}
	}
	if want.what == "open" && ending != "silence" {
		want, wantAt = connOutcome{what: "error", why: ending}, endAt
	}
	if ending == "reset" && wantAt >= 0 && endAt == wantAt {
		endAt += time.Millisecond // a reset discards what has not been read
		if want.why == ending {
			wantAt = endAt
		}
	}
	if badWrite != "" {
		want, wantAt = connOutcome{what: "open", why: "request not written"}, -1
		if badWrite == "cut" {
			want, wantAt = connOutcome{what: "error", why: "request not written"}, 0
		}
		pieces, ending, endAt = nil, "silence", 0
	}
	// the context
	ctx, cancel := context.Background(), context.CancelFunc(func() {})
	ctxKind, ctxAt := "none", time.Duration(-1)
	plain := false
	choice := rng.Intn(6)
	if badWrite != "" {
		choice = 0 // a context can only interrupt reading
	}
	switch choice {
	case 0, 1:
		plain = rng.Intn(3) == 0
	case 2, 3:
		ctxKind = "deadline"
	case 4:
		ctxKind = "cancel"
	case 5:
		ctxKind = "value"
		ctx = context.WithValue(ctx, "k", 1) //nolint
	}
	if ctxKind == "deadline" || ctxKind == "cancel" {
		last := endAt
		if wantAt > last {
			last = wantAt
		}
		switch rng.Intn(3) {
		case 0:
			ctxAt = time.Duration(rng.Int63n(int64(last)+2000)) + 1
		case 1:
			ctxAt = last + time.Duration(1+rng.Intn(10000))*time.Millisecond
		default:
			ctxAt = time.Duration(rng.Int63n(int64(last) + 1))
		}
		ctxAt = ctxAt/1000*1000 + 7 // never at the time of anything else
		if rng.Intn(12) == 0 {
			ctxAt = -1
		}
		if ctxKind == "deadline" {
			d := ctxAt
			if ctxAt < 0 {
				d = -time.Duration(rng.Intn(1000)) * time.Millisecond
			}
			ctx, cancel = context.WithDeadline(ctx, w.t0.Add(d))
		} else {
			ctx, cancel = context.WithCancel(ctx)
			if ctxAt < 0 {
				cancel()
			} else {
				time.AfterFunc(ctxAt, cancel)
			}
		}
		if rng.Intn(2) == 0 {
			ctx = deeperContext(rng, ctx, w.t0, ctxAt)
			ctxKind += "+"
		}
		if ctxAt < 0 {
			ctxAt = 0
			ctxKind += "-before"
			if wantAt == 0 {
				// everything at once: the outcome is not decided
				want.what = "either"
			}
		}
	}
	// the context ends at the very moment the response arrives: either outcome,
	// but a connection must be as good as any other
	simul := ""
	if strings.HasPrefix(ctxKind, "cancel") && want.what == "connection" && ctxAt > 0 && rng.Intn(3) == 0 {
		simul = []string{"before", "after"}[rng.Intn(2)]
		cancel()
		ctx, cancel = context.WithCancel(context.Background())
		ctxKind += " " + simul
		ctxAt = wantAt
	}
	defer cancel()
	ended := false // the context ends first
	if ctxAt >= 0 && (wantAt < 0 || ctxAt < wantAt) {
		ended = true
		want, wantAt = connOutcome{what: "error", why: "context"}, ctxAt
	}
	if want.what == "open" {
		// silence: nothing may happen until the peer goes away at last
		endAt = at + time.Hour
		ending = []string{"eof", "reset"}[rng.Intn(2)]
		if badWrite != "" {
			ending = "reset"
		}
		want, wantAt = connOutcome{what: "error", why: "late end"}, endAt
	}
	logf("response %s %s, then %s at %v; context %s %v; expected %s (%s) at %v", resp.kind, q(acc), ending, endAt, ctxKind, ctxAt, want.what, want.why, wantAt)

	// the attempt
	var seen []*frame.Header
	opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nopLog{})}
	cb := rng.Intn(2) == 0
	if cb {
		opts = append(opts, stomp.ConnOpt.ResponseHeaders(func(h *frame.Header) { seen = append(seen, h.Clone()) }))
	}
	if rng.Intn(3) == 0 {
		opts = append(opts, stomp.ConnOpt.ReadBufferSize(1+rng.Intn(100)))
	}
	wantsBeats := rng.Intn(2) == 0
	if !wantsBeats {
		opts = append(opts, stomp.ConnOpt.HeartBeat(time.Minute, 0))
	}
	switch badWrite {
	case "cut":
		a.CutOutgoing(rng.Intn(20), []error{nil, errReset}[rng.Intn(2)])
	case "stall":
		b.SetInCap(1 + rng.Intn(20))
		b.Pause(true)
	}
	go peer.read()
	var mu sync.Mutex
	var conn *stomp.Conn
	var cerr error
	var cat time.Duration
	done := false
	go func() {
		var c *stomp.Conn
		var err error
		var rwc io.ReadWriteCloser = a
		if plain {
			rwc = plainConn{a}
		}
		if ctxKind == "none" {
			c, err = stomp.Connect(rwc, opts...)
		} else {
			c, err = stomp.ConnectWithContext(ctx, rwc, opts...)
		}
		mu.Lock()
		conn, cerr, cat, done = c, err, w.now(), true
		mu.Unlock()
	}()
	returned := func() bool { mu.Lock(); defer mu.Unlock(); return done }
	synctest.Wait()

	until := func(t time.Duration) {
		if d := t - w.now(); d > 0 {
			time.Sleep(d)
		}
		synctest.Wait()
	}
	early := func() {
		// whatever was returned before the decisive moment was made up
		if returned() && !failed && cat < wantAt && want.what != "either" {
			fail("early", fmt.Sprintf("the connection attempt returned (%v, %v) at %v, before anything decided it at %v", conn != nil, cerr, cat, wantAt))
		}
	}
	for k := 0; k < len(pieces); {
		t := pieces[k].at
		until(t - 1)
		until(t)
		// all pieces of this moment, one after the other
		now := simul != "" && t == wantAt
		if now && simul == "before" {
			cancel()
		}
		for k < len(pieces) && pieces[k].at == t {
			_ = peer.raw(pieces[k].b)
			k++
		}
		if now && simul == "after" {
			cancel()
		}
		synctest.Wait()
		early()
	}
	if ended {
		until(wantAt)
		early()
	}
	if ending != "silence" {
		until(endAt)
		logf("%s", ending)
		if ending == "eof" {
			b.CloseWrite()
		} else {
			b.Reset()
		}
		synctest.Wait()
		early()
	}
	until(wantAt)
	synctest.Wait()
	if !returned() {
		prompt := want.what == "connection" || want.f != nil || want.why == "context" || want.why == "eof" || want.why == "reset" || want.why == "late end" || want.why == "heart-beat"
		if prompt && want.what != "either" {
			fail("no-return", fmt.Sprintf("the connection attempt has not returned, %s (%s) was decided at %v", want.what, want.why, wantAt))
		}
		b.Reset()
		synctest.Wait()
		if !returned() {
			fail("never-returns", "the connection attempt does not return although the connection is gone")
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if simul != "" && done && cerr != nil && !failed {
		want = connOutcome{what: "error", why: "context"}
		r.Count("context_won_race", 1)
	} else if simul != "" {
		r.Count("context_lost_race", 1)
	}
	if done && !failed && want.what != "either" {
		switch {
		case (conn != nil) == (cerr != nil):
			fail("both", fmt.Sprintf("the connection attempt returned connection: %v and error: %v", conn != nil, cerr))
		case want.what == "connection" && cerr != nil:
			fail("refused-valid", fmt.Sprintf("a valid CONNECTED %s was refused: %v", want.f, cerr))
		case want.what == "error" && cerr == nil:
			fail("accepted-invalid", fmt.Sprintf("a connection was returned, expected an error (%s)", want.why))
		case want.what == "error" && want.why != "malformed" && cat != wantAt:
			fail("wrong-time", fmt.Sprintf("the error %v (%s) came at %v instead of %v", cerr, want.why, cat, wantAt))
		case want.what == "error":
			if t := checkError(cerr, want.f); t != "" {
				fail("error-text", t)
			}
			r.Count("refused", 1)
			if ended {
				r.Count("context_ended", 1)
			}
		default:
			if t := checkConn(conn, want.f, seen, cb); t != "" {
				fail("report", t)
			}
			r.Count("connections", 1)
		}
	}
	if done && (conn != nil) == (cerr != nil) {
		fail("both", fmt.Sprintf("the connection attempt returned connection: %v and error: %v", conn != nil, cerr))
	}
	junk := false // a damaged response may leave more than a response
	if want.what == "connection" {
		_, used, _, _ := dec(resp.b)
		junk = used < len(resp.b)
	}
	if conn != nil && !failed && want.what == "connection" && !junk {
		gone := extra == "error" || ending != "silence"
		if !gone {
			// the context has nothing to do with the connection any more
			if t := ctxAt - w.now(); t > 0 {
				for w.now() <= ctxAt+time.Millisecond {
					time.Sleep(time.Second)
					_ = peer.send(mk(""))
					synctest.Wait()
				}
				r.Count("context_ended_later", 1)
			} else if rng.Intn(2) == 0 {
				cancel()
				time.Sleep(time.Millisecond)
				synctest.Wait()
			}
		}
		r.useConnection(rng, w, conn, peer, gone, fail)
	}
	if conn != nil {
		go func() { _ = conn.MustDisconnect() }()
	}
	synctest.Wait()
	b.Reset()
	_ = a.Close()
	time.Sleep(time.Minute)
	synctest.Wait()
	if n := libGoroutines(); n != w.base {
		fail("goroutines-left", fmt.Sprintf("%d goroutines of the library are left after the attempt (connection: %v)", n-w.base, conn != nil))
	}
	r.Eval(fmt.Sprintf("%s|%s|%s|%s|%s|%v|%s", resp.kind, extra, ending, ctxKind, want.what+want.why, plain, badWrite), resp.b != nil || ended)
	if extra == "" && ctxKind == "none" {
		r.Sample("attempt "+want.what, log)
	}
}

// useConnection shows that the connection works, or that it is known to be lost.
// deeperContext wraps a context that ends at a certain time in others that end later or not at all.
func deeperContext(rng *rand.Rand, ctx context.Context, start time.Time, at time.Duration) context.Context {
	for k := 1 + rng.Intn(3); k > 0; k-- {
		var cancel context.CancelFunc
		switch rng.Intn(4) {
		case 0, 1:
			if at < 0 {
				at = 0
			}
			later := start.Add(at + time.Millisecond + time.Duration(rng.Int63n(int64([]time.Duration{time.Second, time.Minute, 100 * time.Hour}[rng.Intn(3)]))))
			ctx, cancel = context.WithDeadline(ctx, later)
		case 2:
			ctx, cancel = context.WithCancel(ctx)
		default:
			ctx = context.WithValue(ctx, k, k) //nolint
		}
		_ = cancel // released with the context it wraps
	}
	return ctx
}

func (r *R) useConnection(rng *rand.Rand, w *srvWorld, conn *stomp.Conn, peer *rawClient, gone bool, fail func(key, what string)) {
	peer.take()
	var mu sync.Mutex
	var err error
	done := false
	send := func(call func() error) {
		done = false
		go func() {
			e := call()
			mu.Lock()
			err, done = e, true
			mu.Unlock()
		}()
		synctest.Wait()
	}
	send(func() error { return conn.Send("/queue/a", "text/plain", []byte("hello"), stomp.SendOpt.Receipt) })
	if gone {
		time.Sleep(time.Minute)
		synctest.Wait()
		mu.Lock()
		if !done || err == nil {
			fail("lost-unnoticed", fmt.Sprintf("a confirmed send over a connection that was lost right after CONNECTED: returned %v, error %v", done, err))
		}
		mu.Unlock()
		return
	}
	fs := peer.take()
	if len(fs) != 1 || fs[0].F.Cmd != "SEND" || string(fs[0].F.Body) != "hello" {
		fail("unusable", fmt.Sprintf("after connecting, a send led to %v at the peer (error %v)", fs, err))
		return
	}
	_ = peer.send(mk("RECEIPT", "receipt-id", fs[0].F.val("receipt")))
	synctest.Wait()
	mu.Lock()
	ok := done && err == nil
	mu.Unlock()
	if !ok {
		fail("unusable", fmt.Sprintf("after connecting, a confirmed send did not succeed: returned %v, error %v", done, err))
		return
	}
	if rng.Intn(3) > 0 {
		return
	}
	send(conn.Disconnect)
	fs = peer.take()
	if len(fs) != 1 || fs[0].F.Cmd != "DISCONNECT" {
		fail("unusable", fmt.Sprintf("after connecting, a disconnect led to %v at the peer (error %v)", fs, err))
		return
	}
	_ = peer.send(mk("RECEIPT", "receipt-id", fs[0].F.val("receipt")))
	synctest.Wait()
	mu.Lock()
	if !done || err != nil {
		fail("unusable", fmt.Sprintf("after connecting, a disconnect did not succeed: returned %v, error %v", done, err))
	}
	mu.Unlock()
}

// ---- TCP

// dialAttempts connects over TCP on the loopback interface to a scripted server.
func (r *R) dialAttempts(label string, n int) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Note("no loopback interface: " + err.Error())
		return
	}
	defer l.Close()
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		var hist []string
		fail := func(key, what string) { r.Fail(key, what, hist) }
		resp := randResponse(rng)
		if rng.Intn(3) == 0 {
			resp = response{"nothing", nil}
		}
		out := judgeResponse(resp.b)
		ending := []string{"silence", "eof", "reset"}[rng.Intn(3)]
		if out.what == "connection" || out.what == "error" {
			ending = "silence" // the end might overtake the response
		}
		ctx, cancel := context.Background(), context.CancelFunc(func() {})
		ctxKind := "none"
		limit := time.Duration(1+rng.Intn(30)) * time.Millisecond
		if out.what == "open" && ending == "silence" {
			ctxKind = []string{"deadline", "cancel"}[rng.Intn(2)]
		} else if rng.Intn(3) == 0 {
			ctxKind = "long"
			limit = time.Hour
		}
		switch ctxKind {
		case "deadline", "long":
			ctx, cancel = context.WithTimeout(ctx, limit)
		case "cancel":
			ctx, cancel = context.WithCancel(ctx)
			time.AfterFunc(limit, cancel)
		}
		if ctxKind != "none" && rng.Intn(2) == 0 {
			ctx = deeperContext(rng, ctx, time.Now(), limit)
			ctxKind += "+"
		}
		defer cancel()
		hist = append(hist, fmt.Sprintf("response %s %s then %s; context %s %v; expected %s %s", resp.kind, q(resp.b), ending, ctxKind, limit, out.what, out.why))
		type srvEnd struct {
			f      *F
			err    error
			closed bool
		}
		got := make(chan srvEnd, 1)
		ready := make(chan net.Conn, 1)
		go func() {
			c, err := l.Accept()
			if err != nil {
				got <- srvEnd{err: err}
				return
			}
			ready <- c
			defer c.Close()
			ds := newDecStream(c)
			_ = c.SetReadDeadline(time.Now().Add(60 * time.Second))
			f, err := ds.next()
			e := srvEnd{f: f, err: err}
			if err == nil {
				_, _ = c.Write(resp.b)
				switch ending {
				case "eof":
					_ = c.(*net.TCPConn).CloseWrite()
				case "reset":
					_ = c.(*net.TCPConn).SetLinger(0)
					got <- e
					return
				}
				// now serve until the client goes away
				for {
					f, err := ds.next()
					if err != nil {
						var ne net.Error
						e.closed = !(errors.As(err, &ne) && ne.Timeout())
						break
					}
					if id := f.val("receipt"); id != "" {
						_, _ = c.Write(mk("RECEIPT", "receipt-id", id).enc())
					}
				}
			} else {
				e.closed = true // the client gave up before it sent anything
			}
			got <- e
		}()
		start := time.Now()
		conn, err := stomp.DialWithContext(ctx, "tcp", l.Addr().String(), stomp.ConnOpt.Logger(nopLog{}))
		took := time.Since(start)
		if (conn != nil) == (err != nil) {
			fail("both", fmt.Sprintf("Dial returned connection: %v and error: %v", conn != nil, err))
		}
		switch {
		case out.what == "connection" && err != nil:
			fail("refused-valid", fmt.Sprintf("Dial refused a valid CONNECTED: %v", err))
		case (out.what == "error" || out.what == "open") && err == nil:
			fail("accepted-invalid", "Dial returned a connection, expected an error ("+out.why+ending+")")
		case out.what == "open" && ending == "silence" && took < limit:
			fail("early", fmt.Sprintf("Dial returned %v after %v, its context ends after %v and the peer is silent", err, took, limit))
		case out.what == "open" && ending == "silence" && took > limit+20*time.Second:
			fail("late", fmt.Sprintf("Dial returned %v after %v, its context ended after %v and the peer is silent", err, took, limit))
		case out.what == "error":
			if t := checkError(err, out.f); t != "" {
				fail("error-text", t)
			}
		case out.what == "connection" && err == nil:
			if t := checkConn(conn, out.f, nil, false); t != "" {
				fail("report", t)
			}
			for k := 0; k < 3; k++ {
				if e := conn.Send("/queue/a", "", []byte("x"), stomp.SendOpt.Receipt); e != nil {
					fail("unusable", "a confirmed send after Dial: "+e.Error())
					break
				}
				cancel()
			}
			if e := conn.Disconnect(); e != nil {
				fail("unusable", "Disconnect after Dial: "+e.Error())
			}
		}
		if conn != nil {
			_ = conn.MustDisconnect()
		}
		select {
		case e := <-got:
			if !e.closed && ending != "reset" {
				fail("not-closed", fmt.Sprintf("the network connection made by Dial is still open 60 s after Dial returned %v", err))
			}
			if e.f != nil && e.f.val("host") != "127.0.0.1" {
				fail("host", fmt.Sprintf("Dial sent host %q", e.f.val("host")))
			}
			if e.f != nil && out.what == "error" {
				r.Count("dialled_closed", 1)
			}
		case <-time.After(75 * time.Second):
			select {
			case c := <-ready:
				_ = c.Close()
				fail("not-closed", fmt.Sprintf("the network connection made by Dial is still open although Dial returned %v", err))
			default:
				// the connection never reached the server: let the accept go on
				if c, e := net.Dial("tcp", l.Addr().String()); e == nil {
					_ = c.Close()
				}
				<-got
			}
		}
		r.Count("dials", 1)
		r.Eval(fmt.Sprintf("dial|%s|%s|%s|%s", resp.kind, ending, ctxKind, out.what+out.why), true)
	})
	// an address nobody listens at
	l2, err := net.Listen("tcp", "127.0.0.1:0")
	if err == nil {
		addr := l2.Addr().String()
		l2.Close()
		if c, err := stomp.Dial("tcp", addr); err == nil {
			r.Fail("accepted-invalid", "Dial returned a connection to an address nobody listens at", nil)
			_ = c.MustDisconnect()
		}
	}
	if c, err := stomp.Dial("no-such-network", "x"); err == nil || c != nil {
		r.Fail("accepted-invalid", "Dial returned a connection over an unknown network", nil)
	}
}

// dialBlocked dials an address that does not complete the TCP handshake: the context must end the attempt.
func (r *R) dialBlocked(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
		if err != nil {
			r.Note("no socket: " + err.Error())
			return
		}
		open := true
		shut := func() {
			if open {
				open = false
				_ = syscall.Close(fd)
			}
		}
		defer shut()
		if syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) != nil || syscall.Listen(fd, 0) != nil {
			return
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			return
		}
		addr := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
		// fill the backlog
		full := false
		for k := 0; k < 8 && !full; k++ {
			c, err := net.DialTimeout("tcp", addr, 300*time.Millisecond)
			if err != nil {
				full = true
			} else {
				defer c.Close()
			}
		}
		if !full {
			r.Count("backlog_not_full", 1)
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		limit := time.Duration(1+rng.Intn(50)) * time.Millisecond
		kind := "cancel"
		if rng.Intn(2) == 0 {
			kind = "deadline"
			ctx, cancel = context.WithTimeout(context.Background(), limit)
		} else {
			time.AfterFunc(limit, cancel)
		}
		if rng.Intn(2) == 0 {
			ctx = deeperContext(rng, ctx, time.Now(), limit)
		}
		defer cancel()
		done := make(chan error, 1)
		go func() {
			c, err := stomp.DialWithContext(ctx, "tcp", addr, stomp.ConnOpt.Logger(nopLog{}))
			if err == nil {
				_ = c.MustDisconnect()
			}
			done <- err
		}()
		select {
		case err := <-done:
			if err == nil {
				r.Fail("accepted-invalid", "Dial returned a connection although nobody answers", nil)
			}
		case <-time.After(limit + 20*time.Second):
			r.Fail("late", fmt.Sprintf("DialWithContext does not return 20 s after its context ended (%s); the TCP connection is never completed", kind), nil)
			shut()
		}
		r.Count("blocked_dials", 1)
		r.Eval("dial-blocked|"+kind, true)
	})
}

// ---- the request

// optModel is what a sequence of options must lead to.
type optModel struct {
	cmd             string
	host            string
	login, passcode string
	hbSet           bool
	send, recv      time.Duration
	versions        []string
	custom          [][2]string
	fails           error
	failsText       string
	wbuf, rbuf      int
	log             []string
}

func (o *optModel) frame() *F {
	f := mk(o.cmd, "host", o.host, "accept-version", strings.Join(o.versions, ","),
		"heart-beat", fmt.Sprintf("%d,%d", o.send.Milliseconds(), o.recv.Milliseconds()))
	if len(o.versions) == 0 {
		f.H[1][1] = "1.0,1.1,1.2"
	}
	if o.login != "" || o.passcode != "" {
		f.H = append(f.H, [2]string{"login", o.login}, [2]string{"passcode", o.passcode})
	}
	return f
}

// diff says how a request differs from what the options ask for.
func (o *optModel) diff(f *F) string {
	want := o.frame()
	if f.Cmd != want.Cmd {
		return fmt.Sprintf("the request is a %s frame, expected %s", f.Cmd, want.Cmd)
	}
	if len(f.Body) > 0 {
		return fmt.Sprintf("the request has a body: %s", q(f.Body))
	}
	n := len(want.H)
	if len(f.H) < n {
		return fmt.Sprintf("the request has the headers %q, expected %q and then %q", f.H, want.H, o.custom)
	}
	base := &F{H: f.H[:n]}
	for _, e := range want.H {
		if v, ok := base.get(e[0]); !ok || v != e[1] || base.count(e[0]) != 1 {
			return fmt.Sprintf("header %s of the request is %q (present: %v), expected %q; all: %q", e[0], v, ok, e[1], f.H)
		}
	}
	rest := f.H[n:]
	if fmt.Sprintf("%q", rest) != fmt.Sprintf("%q", o.custom) {
		return fmt.Sprintf("the custom headers of the request are %q, expected %q", rest, o.custom)
	}
	return ""
}

var errOption = errors.New("this option fails")

func randOptions(rng *rand.Rand, hostDefault string) (opts []func(*stomp.Conn) error, o *optModel) {
	o = &optModel{cmd: "CONNECT", host: hostDefault, send: time.Minute, recv: time.Minute}
	logf := func(f string, x ...any) { o.log = append(o.log, fmt.Sprintf(f, x...)) }
	dur := func() time.Duration {
		switch rng.Intn(5) {
		case 0:
			return 0
		case 1:
			return time.Duration(rng.Int63n(5000)) * time.Microsecond
		case 2:
			return time.Duration(rng.Int63())
		case 3:
			return math.MaxInt64
		default:
			return time.Duration(rng.Intn(100000)) * time.Millisecond
		}
	}
	text := func() string {
		if rng.Intn(6) == 0 {
			return ""
		}
		return randText(rng, 5)
	}
	failAt := -1
	n := rng.Intn(8)
	if rng.Intn(8) == 0 {
		failAt = rng.Intn(n + 1)
	}
	for k := 0; k <= n; k++ {
		if k == failAt {
			if rng.Intn(2) == 0 {
				opts = append(opts, func(*stomp.Conn) error { return errOption })
				logf("failing option")
				if o.fails == nil {
					o.fails = errOption
				}
			} else {
				vs := []stomp.Version{stomp.V11, stomp.Version([]string{"", "1.3", "1.1,1.2", "x"}[rng.Intn(4)]), stomp.V12}[rng.Intn(2):]
				rng.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
				opts = append(opts, stomp.ConnOpt.AcceptVersion(vs...))
				logf("AcceptVersion%q", vs)
				if o.fails == nil {
					o.fails = stomp.ErrUnsupportedVersion
				}
			}
			continue
		}
		if k == n {
			break
		}
		switch rng.Intn(14) {
		case 0:
			l, p := text(), text()
			opts = append(opts, stomp.ConnOpt.Login(l, p))
			o.login, o.passcode = l, p
			logf("Login(%q, %q)", l, p)
		case 1:
			h := text()
			opts = append(opts, stomp.ConnOpt.Host(h))
			o.host = h
			if h == "" {
				o.host = hostDefault
			}
			logf("Host(%q)", h)
		case 2:
			opts = append(opts, stomp.ConnOpt.UseStomp)
			o.cmd = "STOMP"
			logf("UseStomp")
		case 3, 4:
			var vs []stomp.Version
			for j := rng.Intn(4); j > 0; j-- {
				vs = append(vs, []stomp.Version{stomp.V10, stomp.V11, stomp.V12}[rng.Intn(3)])
			}
			opts = append(opts, stomp.ConnOpt.AcceptVersion(vs...))
			for _, v := range vs {
				o.versions = append(o.versions, string(v))
			}
			logf("AcceptVersion%q", vs)
		case 5, 6:
			s, v := dur(), dur()
			opts = append(opts, stomp.ConnOpt.HeartBeat(s, v))
			o.send, o.recv = s, v
			logf("HeartBeat(%v, %v)", s, v)
		case 7, 8, 9:
			name, val := randName(rng), randText(rng, 5)
			if rng.Intn(3) == 0 {
				name = []string{"host", "login", "passcode", "accept-version", "heart-beat", "client-id"}[rng.Intn(6)]
			}
			opts = append(opts, stomp.ConnOpt.Header(name, val))
			o.custom = append(o.custom, [2]string{name, val})
			logf("Header(%q, %q)", name, val)
		case 10:
			opts = append(opts, nil)
			logf("nil")
		case 11:
			x := rng.Intn(5000)
			opts = append(opts, stomp.ConnOpt.WriteBufferSize(x))
			o.wbuf = x
			logf("WriteBufferSize(%d)", x)
		case 12:
			x := rng.Intn(5000)
			opts = append(opts, stomp.ConnOpt.ReadBufferSize(x))
			o.rbuf = x
			logf("ReadBufferSize(%d)", x)
		case 13:
			j := rng.Intn(9)
			d := dur()
			opts = append(opts, []func(*stomp.Conn) error{stomp.ConnOpt.HeartBeatError(d), stomp.ConnOpt.MsgSendTimeout(d), stomp.ConnOpt.RcvReceiptTimeout(d),
				stomp.ConnOpt.DisconnectReceiptTimeout(d), stomp.ConnOpt.UnsubscribeReceiptTimeout(d), stomp.ConnOpt.HeartBeatGracePeriodMultiplier(rng.Float64() * 3),
				stomp.ConnOpt.ReadChannelCapacity(rng.Intn(50)), stomp.ConnOpt.WriteChannelCapacity(rng.Intn(50)), stomp.ConnOpt.WithStats()}[j])
			logf("option %d (%v)", j, d)
		}
	}
	// a logger must be there, but where does not matter
	k := rng.Intn(len(opts) + 1)
	opts = append(opts[:k:k], append([]func(*stomp.Conn) error{stomp.ConnOpt.Logger(nopLog{})}, opts[k:]...)...)
	return opts, o
}

func (r *R) connectOptions(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		r.inClient(rng, func(w *srvWorld) {
			a, b := memPipe()
			hostDefault := "server.example"
			plain := false
			switch rng.Intn(5) {
			case 0:
				plain = true
				hostDefault = "default"
			case 1:
				a.remote = memAddr([]string{"pipe", "", "server.example", "a:b:c", "unix@/x"}[rng.Intn(5)])
				hostDefault = "default"
			case 2:
				a.remote = memAddr("[2001:db8::1]:61613")
				hostDefault = "2001:db8::1"
			case 3:
				a.remote = memAddr(":61613")
				hostDefault = "default"
			}
			opts, o := randOptions(rng, hostDefault)
			var mu sync.Mutex
			var writes []int
			var written []byte
			var firstRead int
			a.beforeWrite = func(p []byte) {
				mu.Lock()
				writes = append(writes, len(p))
				written = append(written, p...)
				mu.Unlock()
			}
			a.readSize = func(n int) {
				mu.Lock()
				if firstRead == 0 {
					firstRead = n
				}
				mu.Unlock()
			}
			fail := func(key, what string) {
				r.Fail(key, what, map[string]any{"options": o.log, "written": q(written), "writes": writes})
			}
			var conn *stomp.Conn
			var cerr error
			done := false
			go func() {
				var c *stomp.Conn
				var err error
				if plain {
					c, err = stomp.Connect(plainConn{a}, opts...)
				} else {
					c, err = stomp.Connect(a, opts...)
				}
				mu.Lock()
				conn, cerr, done = c, err, true
				mu.Unlock()
			}()
			synctest.Wait()
			// the peer takes its time: nothing more may be written before it answers
			time.Sleep(time.Duration(rng.Intn(3)) * time.Hour)
			synctest.Wait()
			mu.Lock()
			bad := false
			switch {
			case o.fails != nil:
				r.Count("failing_options", 1)
				if !done || conn != nil || cerr == nil {
					fail("option-error", fmt.Sprintf("an option fails, the attempt returned: %v, connection: %v, error: %v", done, conn != nil, cerr))
				} else if cerr.Error() != o.fails.Error() || o.fails == errOption && !errors.Is(cerr, errOption) {
					fail("option-error", fmt.Sprintf("an option fails with %q, the attempt with %q", o.fails, cerr))
				}
				if len(written) > 0 {
					fail("written-despite-error", "something was written although an option fails: "+q(written))
				}
				bad = true
			case done:
				fail("returned", fmt.Sprintf("the attempt returned without an answer of the peer: connection %v, error %v", conn != nil, cerr))
				bad = true
			default:
				f, n, _, err := dec(written)
				if err != nil {
					fail("request-malformed", "what was written is no frame: "+q(written))
					bad = true
				} else if t := o.diff(f); t != "" {
					fail("request", t)
					bad = true
				} else if n != len(written) {
					fail("more-written", "more than one frame was written before the answer: "+q(written[n:]))
					bad = true
				}
				size := 4096
				if o.wbuf > 0 {
					size = o.wbuf
				}
				if !bad && len(written) <= size && len(writes) != 1 {
					fail("write-buffer", fmt.Sprintf("a request of %d bytes was written in %d pieces although the write buffer has %d bytes", len(written), len(writes), size))
					bad = true
				}
				if rsize := max(o.rbuf, 16); !bad && o.rbuf > 0 && firstRead > rsize {
					fail("read-buffer", fmt.Sprintf("the client reads up to %d bytes at once although the read buffer has %d", firstRead, rsize))
					bad = true
				}
				r.Count("requests_checked", 1)
			}
			mu.Unlock()
			if !bad && rng.Intn(4) == 0 {
				_, _ = b.Write(mk("CONNECTED", "version", "1.2", "heart-beat", "0,0").enc())
				synctest.Wait()
				mu.Lock()
				if !done || conn == nil {
					fail("refused", fmt.Sprintf("a valid CONNECTED was refused: %v", cerr))
				}
				mu.Unlock()
				time.Sleep(time.Minute)
			}
			b.Reset()
			_ = a.Close()
			synctest.Wait()
			if n := libGoroutines(); n != w.base {
				fail("goroutines-left", fmt.Sprintf("%d goroutines of the library are left after the attempt", n-w.base))
			}
			r.Eval(strings.Join(o.log, ";")+fmt.Sprint(plain, a.remote), len(o.log) > 0)
			if i < 3 {
				r.Sample("options", map[string]any{"options": o.log, "request": q(written)})
			}
		})
	})
}

// dialOptions does the same over TCP, where Dial provides the host.
func (r *R) dialOptions(label string, n int) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Note("no loopback interface: " + err.Error())
		return
	}
	defer l.Close()
	_, port, _ := net.SplitHostPort(l.Addr().String())
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		opts, o := randOptions(rng, "127.0.0.1")
		got := make(chan *F, 1)
		go func() {
			c, err := l.Accept()
			if err != nil {
				got <- nil
				return
			}
			defer c.Close()
			_ = c.SetDeadline(time.Now().Add(60 * time.Second))
			ds := newDecStream(c)
			f, err := ds.next()
			if err != nil {
				got <- nil
				return
			}
			_, _ = c.Write(mk("CONNECTED", "version", "1.1").enc())
			got <- f
		}()
		host := []string{"127.0.0.1", "localhost"}[rng.Intn(2)]
		conn, err := stomp.Dial("tcp4", net.JoinHostPort(host, port), opts...)
		f := <-got
		switch {
		case o.fails != nil:
			if err == nil || err.Error() != o.fails.Error() {
				r.Fail("option-error", fmt.Sprintf("an option fails with %q, Dial returned %v", o.fails, err), o.log)
			}
			if f != nil {
				r.Fail("written-despite-error", "something was written although an option fails: "+f.String(), o.log)
			}
		case f == nil:
			r.Fail("request-malformed", fmt.Sprintf("no frame arrived at the server; Dial returned %v", err), o.log)
		default:
			if t := o.diff(f); t != "" {
				r.Fail("request", t, o.log)
			}
			if err != nil {
				r.Fail("refused", "a valid CONNECTED was refused: "+err.Error(), o.log)
			}
		}
		if conn != nil {
			_ = conn.MustDisconnect()
		}
		r.Count("dialled_requests", 1)
		r.Eval("dial;"+strings.Join(o.log, ";"), true)
	})
}
