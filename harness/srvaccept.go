package harness

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/go-stomp/stomp/v3/server"
)

func init() { register("C36", checkC36) }

func checkC36(r *R) {
	r.Rule("Each case is a server on a scripted listener in virtual time: connections, accept errors of both kinds, clients that stay silent, stop inside a frame, " +
		"vanish, or are authenticated slowly, and traffic between established clients. The time of every Accept call and of every answer is compared " +
		"with what is due. Distinct: sequence of steps.")
	r.serverAssume()
	r.Assume("the listener's Accept is called by the server only; the authenticator returns in the end")
	r.Cases("accept-real", r.N(60, 1500), func(i int, rng *rand.Rand) { r.acceptReal(rng) })
	r.Cases("accept", r.N(3000, 60000), func(i int, rng *rand.Rand) {
		auth := &slowAuth{}
		r.inServer(rng, srvOpt{auth: auth, accept: true, jitter: pickI(rng, 0, 0, 0, 20)}, func(w *srvWorld) { r.acceptCase(rng, w, auth) })
	})
	r.Require("temporary_errors", 8000)
	r.Require("permanent_errors", 300)
	r.Require("slow_authentications", 3000)
	r.Require("served_while_others_hold", 120)
	r.Require("accepted", 10000)
	r.Require("accepted_after_errors", 1000)
}

// slowAuth takes as long as the login says.
type slowAuth struct{}

func (*slowAuth) Authenticate(login, passcode string) bool {
	if d, err := time.ParseDuration(login); err == nil {
		time.Sleep(d)
	}
	return passcode != "bad"
}

// gateAuth blocks logins "hold" until it is released.
type gateAuth struct {
	gate chan struct{}
	in   atomic.Int32
}

func (a *gateAuth) Authenticate(login, passcode string) bool {
	if login == "hold" {
		a.in.Add(1)
		<-a.gate
	}
	return passcode != "bad"
}

// acceptReal runs in real time: with virtual time a server that makes connections wait for each other would stop the
// clock. While many connections hold whatever they can hold, others connect and are served; the limit of 20 s is many
// thousand times what that takes.
func (r *R) acceptReal(rng *rand.Rand) {
	auth := &gateAuth{gate: make(chan struct{})}
	w := &srvWorld{r: r, rng: rng, l: newMemListener(), t0: time.Now()}
	w.srv = &server.Server{Log: nopLog{}, Authenticator: auth}
	go func() { _ = w.srv.Serve(w.l) }()
	var hist []string
	failed := false
	expect := func(x *rawClient, what string, cmds ...string) *F {
		end := time.Now().Add(20 * time.Second)
		for !failed {
			if fs := x.take(); len(fs) > 0 {
				for i, f := range fs {
					if i >= len(cmds) || f.F.Cmd != cmds[i] {
						failed = true
						r.Fail("answer", fmt.Sprintf("%s: expected %v, got %v", what, cmds, f.F), hist)
						return nil
					}
				}
				cmds = cmds[len(fs):]
				if len(cmds) == 0 {
					return fs[len(fs)-1].F
				}
			}
			if time.Now().After(end) {
				failed = true
				r.Fail("not-served", what+": no answer for 20 s while other connections take their time", map[string]any{"history": hist, "goroutines": tail(stompGoroutines(), 40)})
				return nil
			}
			time.Sleep(200 * time.Microsecond)
		}
		return nil
	}
	login := func(x *rawClient, kv ...string) {
		_ = x.send(mk("CONNECT", append([]string{"accept-version", "1.2", "host", "h"}, kv...)...))
	}
	b := w.dial("b")
	login(b)
	expect(b, "a first client connects", "CONNECTED")
	_ = b.send(mk("SUBSCRIBE", "id", "t", "destination", "/topic/t", "receipt", "s"), mk("SUBSCRIBE", "id", "q", "destination", "/queue/q", "receipt", "s"))
	expect(b, "it subscribes", "RECEIPT", "RECEIPT")
	var held []*rawClient
	n := 0
	for round := 1 + rng.Intn(4); round > 0 && !failed; round-- {
		kind := []string{"authenticating", "silent", "half a frame", "receives nothing", "vanished"}[rng.Intn(5)]
		k := []int{1, 3, 20, 150, 400}[rng.Intn(5)]
		hist = append(hist, fmt.Sprintf("%d connections: %s", k, kind))
		before := int(auth.in.Load())
		for i := 0; i < k; i++ {
			x := w.dial(fmt.Sprint("h", len(w.clients)))
			switch kind {
			case "authenticating":
				login(x, "login", "hold", "passcode", []string{"x", "bad"}[rng.Intn(2)])
				held = append(held, x)
			case "half a frame":
				raw := mk("CONNECT", "accept-version", "1.2", "host", "h").enc()
				_ = x.raw(raw[:1+rng.Intn(len(raw)-2)])
			case "receives nothing":
				login(x)
			case "vanished":
				if rng.Intn(2) == 0 {
					login(x)
				}
				x.drop(rng.Intn(3))
			}
		}
		if kind == "authenticating" {
			for end := time.Now().Add(20 * time.Second); int(auth.in.Load()) < before+k; time.Sleep(200 * time.Microsecond) {
				if time.Now().After(end) {
					r.Fail("not-served", fmt.Sprintf("only %d of %d connections are being authenticated after 20 s", int(auth.in.Load())-before, k), map[string]any{"history": hist, "goroutines": tail(stompGoroutines(), 40)})
					failed = true
					break
				}
			}
		}
		for i := 1 + rng.Intn(3); i > 0 && !failed; i-- {
			x := w.dial(fmt.Sprint("c", len(w.clients)))
			login(x)
			expect(x, "a client connects", "CONNECTED")
			n++
			dest := []string{"/topic/t", "/queue/q"}[rng.Intn(2)]
			_ = x.send(mk("SEND", "destination", dest, "x-id", fmt.Sprint(n), "receipt", "r"))
			expect(x, "it sends a message to "+dest, "RECEIPT")
			if f := expect(b, "the subscriber", "MESSAGE"); f != nil && f.val("x-id") != fmt.Sprint(n) {
				failed = true
				r.Fail("not-served", "the subscriber got another message", map[string]any{"history": hist, "message": f.String()})
			}
			r.Count("served_while_others_hold", 1)
			if rng.Intn(2) == 0 {
				x.drop(rng.Intn(3))
			}
		}
	}
	close(auth.gate)
	for _, x := range held {
		if failed {
			break
		}
		end := time.Now().Add(20 * time.Second)
		for len(x.take()) == 0 {
			if time.Now().After(end) {
				failed = true
				r.Fail("no-answer", "a connection whose authentication has ended gets no answer for 20 s", map[string]any{"history": hist, "goroutines": tail(stompGoroutines(), 40)})
				break
			}
			time.Sleep(200 * time.Microsecond)
		}
	}
	r.Max("held_connections", len(held))
	r.Eval(fmt.Sprint(hist), true)
	for _, c := range w.clients {
		c.c.Reset()
	}
	_ = w.l.Close()
}

// tempErr is a network error that declares itself temporary.
type tempErr struct{ timeout bool }

func (tempErr) Error() string   { return "no luck at the moment" }
func (e tempErr) Timeout() bool { return e.timeout }
func (tempErr) Temporary() bool { return true }

type permErr struct{}

func (permErr) Error() string   { return "broken for good" }
func (permErr) Timeout() bool   { return true }
func (permErr) Temporary() bool { return false }

// accLog records what the server does with its listener.
type accLog struct {
	mu      sync.Mutex
	now     func() time.Duration
	calls   int
	waiting bool // inside Accept
	lastErr time.Duration
	errd    bool // the last call returned an error
	perm    bool
	streak  int // temporary errors since the last connection
	bad     string
	waits   []time.Duration
	at      map[net.Conn]time.Duration // when each connection was handed out
}

func (l *accLog) enter() {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.calls++
	l.waiting = true
	if l.perm && l.bad == "" {
		l.bad = "Accept was called again after an error that is not temporary"
	}
	if l.errd && !l.perm {
		d := l.now() - l.lastErr
		l.waits = append(l.waits, d)
		switch {
		case d <= 0:
			l.bad = "Accept was called again at once after a temporary error"
		case d > 5*time.Second:
			l.bad = fmt.Sprintf("Accept was called again only %v after a temporary error", d)
		case d > 600*time.Millisecond && l.streak == 1:
			l.bad = fmt.Sprintf("Accept was called again only %v after the first temporary error", d)
		}
	}
}

func (l *accLog) leave(c net.Conn, err error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.waiting = false
	l.errd = err != nil
	if err == nil {
		l.at[c] = l.now()
		l.streak = 0
		return
	}
	l.lastErr = l.now()
	l.streak++
	var ne net.Error
	if !errors.As(err, &ne) || !ne.Temporary() {
		l.perm = true
	}
}

type accClient struct {
	c     *rawClient
	kind  string
	since time.Duration // when it has sent its CONNECT
	due   time.Duration // what the authenticator takes
	ok    bool          // its CONNECT is valid and accepted
	got   bool          // it has been answered
	late  bool          // dialled when the server was not accepting
}

func (r *R) acceptCase(rng *rand.Rand, w *srvWorld, auth *slowAuth) {
	l := w.l.log
	var sig []string
	var hist []string
	logf := func(f string, a ...any) { hist = append(hist, fmt.Sprintf("%v ", w.now())+fmt.Sprintf(f, a...)) }
	failed := false
	fail := func(key, what string) {
		if !failed {
			failed = true
			r.Fail(key, what, map[string]any{"history": tail(hist, 60), "goroutines": stompStates()})
		}
	}
	var clients []*accClient
	a, b := w.client("a"), w.client("b")
	_ = b.send(mk("SUBSCRIBE", "id", "t", "destination", "/topic/t"), mk("SUBSCRIBE", "id", "q", "destination", "/queue/q"))
	w.quiesce()
	a.take()
	b.take()
	nMsg := 0
	broken := false
	verify := func() {
		w.quiesce()
		now := w.now()
		l.mu.Lock()
		waiting, bad, last := l.waiting, l.bad, l.lastErr
		l.mu.Unlock()
		if bad != "" {
			fail("accept-again", bad)
			return
		}
		if !waiting && !broken && now > last+5*time.Second+time.Millisecond {
			fail("not-accepting", fmt.Sprintf("the server has not called Accept for %v after a temporary error", now-last))
			return
		}
		for _, x := range clients {
			if x.got || x.kind == "gone" {
				continue
			}
			// (time passes while others are served)
			now := w.now()
			l.mu.Lock()
			at, ok := l.at[x.c.srv]
			pending := !ok && l.waiting
			l.mu.Unlock()
			acc := max(at, x.since)
			if fs := x.c.take(); len(fs) > 0 {
				f := fs[0]
				x.got = true
				if !x.ok {
					if f.F.Cmd != "ERROR" && x.kind != "connect" {
						fail("answer", fmt.Sprintf("%s was answered with %v", x.c.name, f.F))
					}
					continue
				}
				if f.F.Cmd != "CONNECTED" {
					fail("answer", fmt.Sprintf("%s has sent a valid CONNECT and was answered with %v", x.c.name, f.F))
					return
				}
				if f.At > acc+x.due+slack(w) {
					fail("answer-late", fmt.Sprintf("%s was accepted at %v, its authentication took %v, and it was answered at %v", x.c.name, acc, x.due, f.At))
					return
				}
				r.Count("accepted", 1)
				if x.late {
					r.Count("accepted_after_errors", 1)
				}
				// it is served
				nMsg++
				_ = x.c.send(mk("SEND", "destination", "/topic/t", "x-id", fmt.Sprint(nMsg), "receipt", "r"))
				w.quiesce()
				g := x.c.take()
				if len(g) != 1 || g[0].F.Cmd != "RECEIPT" {
					fail("not-served", fmt.Sprintf("%s has been accepted, its SEND was answered with %v", x.c.name, g))
					return
				}
				if m := b.take(); len(m) != 1 || m[0].F.val("x-id") != fmt.Sprint(nMsg) {
					fail("not-served", fmt.Sprintf("the message %s has sent was delivered as %v", x.c.name, m))
					return
				}
				if rng.Intn(2) == 0 {
					x.c.drop(rng.Intn(3))
					x.kind = "gone"
				}
				continue
			}
			if x.ok && pending {
				fail("not-accepted", fmt.Sprintf("the connection of %s has not been taken from the listener", x.c.name))
				return
			}
			if x.ok && ok && now >= acc+x.due+slack(w)+time.Microsecond {
				fail("no-answer", fmt.Sprintf("%s sent a valid CONNECT at %v, was accepted at %v, its authentication takes %v, and it has no answer at %v", x.c.name, x.since, acc, x.due, now))
				return
			}
		}
		// the established clients
		nMsg++
		_ = a.send(mk("SEND", "destination", []string{"/topic/t", "/queue/q"}[rng.Intn(2)], "x-id", fmt.Sprint(nMsg), "receipt", "r"))
		t0 := w.now()
		w.quiesce()
		g := a.take()
		if len(g) != 1 || g[0].F.Cmd != "RECEIPT" || g[0].At > t0+slack(w) {
			fail("established", fmt.Sprintf("an established client has sent a message and asked for a receipt, and got %v", g))
			return
		}
		if m := b.take(); len(m) != 1 || m[0].F.Cmd != "MESSAGE" || m[0].F.val("x-id") != fmt.Sprint(nMsg) || m[0].At > t0+slack(w) {
			fail("established", fmt.Sprintf("a message between established clients was delivered as %v", m))
		}
	}
	dial := func(kind string, d time.Duration, pass string) *accClient {
		l.mu.Lock()
		waiting := l.waiting
		l.mu.Unlock()
		x := &accClient{kind: kind, since: w.now(), late: !waiting}
		x.c = w.dial(fmt.Sprint("c", len(clients)))
		clients = append(clients, x)
		if kind == "silent" {
			logf("%s says nothing", x.c.name)
			return x
		}
		f := mk("CONNECT", "accept-version", "1.2", "host", "h")
		if d > 0 {
			f.H = append(f.H, [2]string{"login", d.String()})
			x.due = d
			r.Count("slow_authentications", 1)
		}
		if pass != "" {
			f.H = append(f.H, [2]string{"passcode", pass})
		}
		raw := f.enc()
		switch kind {
		case "half":
			raw = raw[:1+rng.Intn(len(raw)-2)]
		default:
			x.ok = pass != "bad"
		}
		_ = x.c.raw(raw)
		logf("%s dials and sends %s", x.c.name, q(raw))
		return x
	}
	steps := 5 + rng.Intn(25)
	for k := 0; k < steps && !failed; k++ {
		op := []string{"connect", "connect", "connect", "slow", "silent", "half", "refused", "gone", "errors", "errors", "time", "time", "perm", "spell"}[rng.Intn(14)]
		if op == "perm" && (rng.Intn(6) > 0 || broken) {
			continue
		}
		if broken && op != "time" {
			continue
		}
		sig = append(sig, op)
		switch op {
		case "connect":
			for n := []int{1, 1, 2, 30}[rng.Intn(4)]; n > 0; n-- {
				dial("connect", 0, "")
			}
		case "slow":
			dial("connect", time.Duration(1+rng.Intn(20000))*time.Millisecond, "")
		case "refused":
			dial("refused", 0, "bad")
		case "silent", "half":
			dial(op, 0, "")
		case "gone":
			x := dial([]string{"silent", "half", "connect"}[rng.Intn(3)], 0, "")
			x.c.drop(rng.Intn(3))
			x.kind, x.ok = "gone", false
		case "errors":
			n := 1 + rng.Intn(3)
			if rng.Intn(4) == 0 {
				n = 1 + rng.Intn(14)
			}
			logf("%d temporary accept errors", n)
			for ; n > 0; n-- {
				var e error = tempErr{rng.Intn(2) == 0}
				if rng.Intn(3) == 0 {
					e = &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept", syscall.EMFILE)}
				}
				w.l.accErr <- e
				r.Count("temporary_errors", 1)
			}
			w.quiesce()
		case "spell":
			// a long spell of errors is over, a connection is accepted, and there is another error
			n := 6 + rng.Intn(9)
			logf("%d temporary accept errors, then a connection, then another error", n)
			for ; n > 0; n-- {
				w.l.accErr <- tempErr{}
				r.Count("temporary_errors", 1)
			}
			for k := 0; k < 20 && len(w.l.accErr) > 0; k++ {
				time.Sleep(5 * time.Second)
			}
			time.Sleep(5 * time.Second)
			dial("connect", 0, "")
			w.quiesce()
			w.l.accErr <- tempErr{}
			w.quiesce()
			time.Sleep(time.Second)
			r.Count("spells", 1)
		case "perm":
			e := []error{permErr{}, net.ErrClosed, io.EOF, errors.New("x"), &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept", syscall.EBADF)}}[rng.Intn(5)]
			logf("accept error %v", e)
			w.l.accErr <- e
			r.Count("permanent_errors", 1)
			broken = true
			w.quiesce()
		case "time":
			d := time.Duration(1+rng.Intn(3000)) * time.Millisecond
			if rng.Intn(3) == 0 {
				d = time.Duration(1+rng.Intn(20)) * time.Millisecond
			}
			logf("%v pass", d)
			time.Sleep(d)
		}
		if rng.Intn(3) > 0 {
			verify()
		}
	}
	for k := 0; k < 7 && !failed; k++ {
		if len(w.l.accErr) > 0 && !broken {
			k = -1
		}
		// all errors are used up, then everybody is served
		time.Sleep(5 * time.Second)
		verify()
	}
	if !failed && !broken {
		for _, x := range clients {
			if x.ok && !x.got && x.kind != "gone" {
				fail("no-answer", fmt.Sprintf("%s sent a valid CONNECT at %v and has no answer", x.c.name, x.since))
				break
			}
		}
	}
	r.Max("max_wait_ms", int(maxDur(l)/time.Millisecond))
	r.Eval(fmt.Sprint(sig), len(l.waits) > 0)
	r.Sample("accept", map[string]any{"history": tail(hist, 20), "waits": fmt.Sprint(tail2(l.waits))})
}

func tail2(d []time.Duration) []time.Duration {
	if len(d) > 20 {
		d = d[len(d)-20:]
	}
	return d
}

func maxDur(l *accLog) (m time.Duration) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, d := range l.waits {
		if d > m {
			m = d
		}
	}
	return
}

// slack is what injected delays may add.
func slack(w *srvWorld) time.Duration {
	if w.jitter == 0 {
		return 0
	}
	return time.Duration(w.jitter) * time.Millisecond
}
