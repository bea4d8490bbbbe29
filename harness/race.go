package harness

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
)

// C32: the race detector is the monitor. Every engine of the other concurrent checks runs here too, compiled with it; but
// their bookkeeping orders many accesses which the library itself leaves unordered, so the engine in this file does
// next to none: goroutines start together, share nothing but the connection, and count in variables of their own.

func init() { register("C32", checkC32) }

const ruleRace = "A case is one connection, or one server with several clients, used by several goroutines at once under the race detector; " +
	"it is non-trivial if at least two goroutines completed calls. Cases are distinguished by the set of operations performed, transport and ending. " +
	"The detector reports two accesses to one location, at least one a write, that no synchronisation orders in the execution observed. "

func checkC32(r *R) {
	r.Rule(ruleRace)
	r.Assume("a transaction and a received message are used by one goroutine at a time; a body passed to a send is not modified")
	r.Assume("loggers, authenticators and network connections handed to the library are safe for concurrent use; the queue storage need not be")
	r.Assume("the race detector sees the accesses that are executed and keeps a bounded history of each location")
	r.stallMonitor()
	r.raceClient("client", r.N(900, 30000))
	r.raceServer("server", r.N(160, 5000))
	r.raceConnect("connect", r.N(60, 2000))
	r.cliConcurrent("conc", r.N(180, 6000), ccProf("sub", 8, "tx", 8, "ack", 8, "acker", 50))
	r.cliConcurrent("conc-ends", r.N(120, 4000), ccProf("end-none", 1, "unsub", 6, "sub", 8))
	r.e2eConcurrent("e2e", r.N(60, 2000), true)
	r.cliStepwise("steps", r.N(60, 2000), cliProf("end", 2, "disc", 2, "must", 1, "unsub", 8, "sub", 8))
	r.cliStalledPeer("stalled", r.N(24, 600))
	r.cliCrossing("crossing", r.N(12, 300))
	r.cliShortTimeouts("short", r.N(30, 600))
	r.clientBeats("beats", r.N(24, 600), false)
	r.connectAttempts("attempts", r.N(60, 2000))
	r.dialAttempts("dials", r.N(12, 300))
	r.chaosCases("chaos", r.N(18, 600), chaosAny)
	r.Require("race_calls", 50000)
	r.Require("race_messages", 3000)
	r.Require("race_server_messages", 5000)
	r.Require("race_disconnects", 300)
}

// raceStorage is a queue storage without any locking of its own: the server must call it serially.
type raceStorage struct {
	q map[string][]*frame.Frame
	n int
}

func (s *raceStorage) Enqueue(queue string, f *frame.Frame) error {
	s.n++
	s.q[queue] = append(s.q[queue], f)
	return nil
}
func (s *raceStorage) Requeue(queue string, f *frame.Frame) error {
	s.n++
	s.q[queue] = append([]*frame.Frame{f}, s.q[queue]...)
	return nil
}
func (s *raceStorage) Dequeue(queue string) (*frame.Frame, error) {
	s.n++
	x := s.q[queue]
	if len(x) == 0 {
		return nil, nil
	}
	s.q[queue] = x[1:]
	return x[0], nil
}
func (s *raceStorage) Start() { s.q = map[string][]*frame.Frame{} }
func (s *raceStorage) Stop()  {}

type raceAuth struct{}

func (raceAuth) Authenticate(login, passcode string) bool { return login == "u" }

// racePeer answers what a client sends: receipts, and messages for its subscriptions.
type racePeer struct {
	c       net.Conn
	rng     *rand.Rand
	version string
	beat    string
	msgs    int
}

func (p *racePeer) run() {
	defer p.c.Close()
	d := newDecStream(p.c)
	wr := bufio.NewWriterSize(p.c, 1+p.rng.Intn(5000))
	var subs []string
	nm := 0
	for {
		f, err := d.next()
		if err != nil {
			return
		}
		switch f.Cmd {
		case "CONNECT", "STOMP":
			cf := mk("CONNECTED", "version", p.version, "session", "s", "server", "peer/1")
			if p.beat != "" {
				cf.H = append(cf.H, [2]string{"heart-beat", p.beat})
			}
			_, _ = wr.Write(cf.enc())
		case "SUBSCRIBE":
			subs = append(subs, f.val("id"))
		case "UNSUBSCRIBE":
			if i := indexOf(subs, f.val("id")); i >= 0 {
				subs = append(subs[:i], subs[i+1:]...)
			}
		}
		if len(subs) > 0 {
			for k := p.rng.Intn(4); k > 0; k-- {
				nm++
				m := mk("MESSAGE", "destination", "/topic/a", "message-id", fmt.Sprint("m", nm), "subscription", subs[p.rng.Intn(len(subs))],
					"ack", fmt.Sprint("a", nm))
				m.Body = []byte(strings.Repeat("b", p.rng.Intn(50)))
				m.H = append(m.H, [2]string{"content-length", fmt.Sprint(len(m.Body))})
				_, _ = wr.Write(m.enc())
			}
		}
		if id := f.val("receipt"); id != "" && (f.Cmd == "COMMIT" || f.Cmd == "ABORT" || p.rng.Intn(30) > 0) { // those have no timeout
			_, _ = wr.Write(mk("RECEIPT", "receipt-id", id).enc())
		}
		if p.rng.Intn(3) > 0 || len(d.buf) == 0 {
			if wr.Flush() != nil {
				return
			}
		}
	}
}

// raceUse does random calls on one connection.
type raceUse struct {
	conn  *stomp.Conn
	rng   *rand.Rand
	subs  []*stomp.Subscription
	dests []string
	opts  []func(*frame.Frame) error // shared by all goroutines
	body  []byte                     // shared by all goroutines
	calls int
	msgs  int
	kinds map[string]bool
	quiet bool // no call that ends the connection
	local []*stomp.Message
	pass  chan *stomp.Message
	sink  int
}

func (u *raceUse) look(m *stomp.Message) {
	if m == nil || m.Err != nil {
		return
	}
	u.msgs++
	u.sink += len(m.Body) + len(m.Destination) + len(m.ContentType) + m.Header.Len()
	if u.rng.Intn(4) == 0 {
		b, _ := io.ReadAll(m)
		u.sink += len(b)
	}
	if m.ShouldAck() {
		u.local = append(u.local, m)
	}
}

func (u *raceUse) ackSome(tx *stomp.Transaction) {
	for len(u.local) > 0 && u.rng.Intn(4) > 0 {
		m := u.local[len(u.local)-1]
		u.local = u.local[:len(u.local)-1]
		switch {
		case tx != nil && u.rng.Intn(3) == 0:
			_ = tx.Nack(m)
		case tx != nil:
			_ = tx.Ack(m)
		case u.rng.Intn(3) == 0 && u.conn.Version().SupportsNack():
			_ = u.conn.Nack(m)
		default:
			_ = u.conn.Ack(m)
		}
		u.calls++
	}
}

// drain takes what is there.
func (u *raceUse) drain(s *stomp.Subscription, max int) {
	for ; max > 0; max-- {
		select {
		case m, ok := <-s.C:
			if !ok {
				return
			}
			u.look(m)
		default:
			return
		}
	}
}

func (u *raceUse) step() {
	rng := u.rng
	ops := []string{"send", "send", "sendopts", "sendr", "sub", "sub", "tx", "tx", "stats", "attrs", "read", "read", "ack", "unsub", "beginfail"}
	op := ops[rng.Intn(len(ops))]
	u.calls++
	u.kinds[op] = true
	d := u.dests[rng.Intn(len(u.dests))]
	switch op {
	case "send":
		_ = u.conn.Send(d, "text/plain", u.body)
	case "sendopts":
		_ = u.conn.Send(d, "", u.body, u.opts...)
	case "sendr":
		_ = u.conn.Send(d, "", u.body, stomp.SendOpt.Receipt)
	case "sub":
		mode := []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}[rng.Intn(3)]
		s, err := u.conn.Subscribe(d, mode)
		if err != nil {
			return
		}
		for k := rng.Intn(4); k > 0; k-- {
			u.drain(s, 3)
			u.conn.Stats()
		}
		two := rng.Intn(3) == 0
		done := make(chan struct{})
		go func() { // what is left
			defer close(done)
			for m := range s.C {
				if m.Err == nil {
					_ = m.ShouldAck()
				}
			}
		}()
		if two {
			go func() { _ = s.Unsubscribe() }()
		}
		_ = s.Unsubscribe()
		_ = s.Active()
		if !two {
			select {
			case <-done:
			case <-time.After(20 * time.Millisecond):
			}
		}
	case "tx":
		tx, err := u.conn.BeginWithError()
		if err != nil {
			return
		}
		for k := rng.Intn(4); k > 0; k-- {
			_ = tx.Send(d, "", u.body, u.opts...)
		}
		u.ackSome(tx)
		_ = tx.Id()
		_ = tx.Conn()
		switch rng.Intn(4) {
		case 0:
			_ = tx.Abort()
		case 1:
			_ = tx.AbortWithReceipt()
		case 2:
			_ = tx.CommitWithReceipt()
		default:
			_ = tx.Commit()
		}
	case "stats":
		s := u.conn.Stats()
		u.sink += int(s.ReadsReceived)
	case "attrs":
		u.sink += len(u.conn.Version()) + len(u.conn.Session()) + len(u.conn.Server())
		for _, s := range u.subs {
			u.sink += len(s.Id()) + len(s.Destination()) + len(s.AckMode().String())
			if s.Active() {
				u.sink++
			}
		}
	case "read":
		if len(u.subs) > 0 {
			u.drain(u.subs[rng.Intn(len(u.subs))], 20)
		}
	case "ack":
		select {
		case m := <-u.pass:
			u.local = append(u.local, m)
		default:
		}
		u.ackSome(nil)
	case "unsub":
		if len(u.subs) > 0 && rng.Intn(12) == 0 {
			_ = u.subs[rng.Intn(len(u.subs))].Unsubscribe()
		}
	case "beginfail":
		_ = u.conn.Send(d, "", nil, func(*frame.Frame) error { return errors.New("no") })
	}
}

// raceDrain reads the shared subscriptions as long as they are open, acknowledges some messages and passes others on.
func raceDrain(wg *sync.WaitGroup, us []*raceUse, useRead bool) {
	for i, u := range us {
		s := u.subs[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			got := func(m *stomp.Message) {
				u.look(m)
				if u.rng.Intn(3) > 0 {
					u.ackSome(nil)
				}
				if n := len(u.local); n > 0 {
					select {
					case u.pass <- u.local[n-1]:
						u.local = u.local[:n-1]
					default:
					}
				}
			}
			for useRead {
				m, err := s.Read()
				if err == nil {
					got(m)
				} else if !s.Active() {
					return
				}
			}
			for m := range s.C {
				got(m)
			}
		}()
	}
}

func (r *R) raceWait(what string, wg *sync.WaitGroup) bool {
	over := make(chan struct{})
	go func() { wg.Wait(); close(over) }()
	select {
	case <-over:
		return true
	case <-time.After(30 * time.Second):
		r.Note(what + " did not end in time (not judged here)")
		r.Count("inconclusive_cases", 1)
		return false
	}
}

func racePair(rng *rand.Rand) (a, b net.Conn, name string) {
	switch rng.Intn(4) {
	case 0:
		a, b = net.Pipe()
		return a, b, "pipe"
	case 1:
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			defer l.Close()
			ch := make(chan net.Conn, 1)
			go func() { c, _ := l.Accept(); ch <- c }()
			a, err := net.Dial("tcp", l.Addr().String())
			if err == nil {
				return a, <-ch, "tcp"
			}
		}
	}
	x, y := memPipe()
	if rng.Intn(2) == 0 {
		x.SetInCap(1 + rng.Intn(2000))
		y.SetInCap(1 + rng.Intn(2000))
	}
	return x, y, "mem"
}

func raceOpts(rng *rand.Rand) []func(*stomp.Conn) error {
	ms := func() time.Duration { return time.Duration(5+rng.Intn(300)) * time.Millisecond }
	o := []func(*stomp.Conn) error{stomp.ConnOpt.RcvReceiptTimeout(ms()), stomp.ConnOpt.UnsubscribeReceiptTimeout(ms()),
		stomp.ConnOpt.DisconnectReceiptTimeout(ms()), stomp.ConnOpt.MsgSendTimeout(ms())}
	if rng.Intn(2) == 0 {
		o = append(o, stomp.ConnOpt.Logger(nopLog{}))
	}
	if rng.Intn(3) > 0 {
		o = append(o, stomp.ConnOpt.WithStats())
	}
	switch rng.Intn(3) {
	case 0:
		o = append(o, stomp.ConnOpt.HeartBeat(time.Duration(1+rng.Intn(20))*time.Millisecond, time.Duration(rng.Intn(2))*20*time.Millisecond))
	case 1:
		o = append(o, stomp.ConnOpt.HeartBeat(0, 0))
	}
	if rng.Intn(3) == 0 {
		o = append(o, stomp.ConnOpt.HeartBeatError(time.Second), stomp.ConnOpt.HeartBeatGracePeriodMultiplier(50))
	}
	if rng.Intn(2) == 0 {
		o = append(o, stomp.ConnOpt.ReadChannelCapacity(1+rng.Intn(20)), stomp.ConnOpt.WriteChannelCapacity(1+rng.Intn(20)))
	}
	if rng.Intn(3) == 0 {
		o = append(o, stomp.ConnOpt.ReadBufferSize(16+rng.Intn(4000)), stomp.ConnOpt.WriteBufferSize(16+rng.Intn(4000)))
	}
	return o
}

// use starts goroutines on a connection and lets the connection end; it returns the number of calls and messages.
func (r *R) raceUse(what string, rng *rand.Rand, conn *stomp.Conn, kill func(how int), dests []string) string {
	var subs []*stomp.Subscription
	for k := rng.Intn(4); k > 0; k-- {
		s, err := conn.Subscribe(dests[rng.Intn(len(dests))], []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}[rng.Intn(3)])
		if err == nil {
			subs = append(subs, s)
		}
	}
	opts := []func(*frame.Frame) error{stomp.SendOpt.Header("x-a", "b"), nil}
	if rng.Intn(2) == 0 {
		opts = append(opts, stomp.SendOpt.NoContentLength)
	}
	body := []byte(strings.Repeat("d", rng.Intn(200)))
	var wg, rg sync.WaitGroup
	pass := make(chan *stomp.Message, 10)
	ds := make([]*raceUse, len(subs))
	for k := range ds {
		ds[k] = &raceUse{conn: conn, rng: rand.New(rand.NewSource(rng.Int63())), subs: subs, pass: pass}
	}
	raceDrain(&rg, ds, rng.Intn(2) == 0)
	start := make(chan struct{})
	us := make([]*raceUse, 2+rng.Intn(6))
	for g := range us {
		u := &raceUse{conn: conn, rng: rand.New(rand.NewSource(rng.Int63())), subs: subs, dests: dests, opts: opts, body: body, pass: pass, kinds: map[string]bool{}}
		us[g] = u
		n := 2 + rng.Intn(40)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < n; k++ {
				u.step()
			}
		}()
	}
	how := rng.Intn(8)
	nd := 1 + rng.Intn(3)
	delay := time.Duration(rng.Intn(5000)) * time.Microsecond
	early := rng.Intn(2) == 0
	must := make([]bool, nd)
	for k := range must {
		must[k] = rng.Intn(4) == 0
	}
	end := func() {
		if how < 4 {
			kill(how)
		}
		for _, m := range must {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if m {
					_ = conn.MustDisconnect()
				} else {
					_ = conn.Disconnect()
				}
			}()
		}
	}
	close(start)
	if early {
		time.Sleep(delay)
		end()
	}
	if !r.raceWait(what, &wg) {
		kill(0)
		return ""
	}
	if !early {
		end()
		if !r.raceWait(what+" (disconnect)", &wg) {
			kill(0)
			return ""
		}
	}
	kill(0)
	calls, msgs := 0, 0
	if r.raceWait(what+" (subscriptions)", &rg) {
		for _, u := range ds {
			calls += u.calls
			msgs += u.msgs
		}
	}
	kinds := map[string]bool{}
	for _, u := range us {
		calls += u.calls
		msgs += u.msgs
		for k := range u.kinds {
			kinds[k] = true
		}
	}
	r.Count("race_calls", calls)
	r.Count("race_messages", msgs)
	r.Count("race_frames_received", int(conn.Stats().ReadsReceived))
	r.Count("race_disconnects", 1)
	return fmt.Sprintf("%d goroutines %d kinds %d calls end %d early %v", len(us), len(kinds), calls, how, early)
}

func (r *R) raceClient(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		a, b, name := racePair(rng)
		p := &racePeer{c: b, rng: rand.New(rand.NewSource(rng.Int63())), version: []string{"1.0", "1.1", "1.2"}[rng.Intn(3)]}
		if rng.Intn(2) == 0 {
			p.beat = fmt.Sprintf("%d,%d", rng.Intn(2)*20, rng.Intn(2)*(1+rng.Intn(20)))
		}
		go p.run()
		conn, err := stomp.Connect(a, raceOpts(rng)...)
		if err != nil {
			r.Note("connect: " + err.Error())
			_ = a.Close()
			return
		}
		kill := func(how int) {
			switch how {
			case 1:
				_, _ = b.Write([]byte("ERROR\nmessage:no\n\n\x00"))
			case 2:
				_, _ = b.Write([]byte("garbage\n\n\x00"))
			case 3:
				_ = a.Close()
			default:
				_ = b.Close()
			}
		}
		s := r.raceUse("client over "+name, rng, conn, kill, []string{"/topic/a", "/queue/b"})
		r.Eval(name+" "+p.version+" "+s, s != "")
		if s != "" {
			r.Sample("client", name+" version "+p.version+": "+s)
		}
	})
}

// raceServer: several real clients and one real server.
func (r *R) raceServer(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		srv := &server.Server{HeartBeat: time.Duration(1+rng.Intn(30)) * time.Millisecond}
		if rng.Intn(2) == 0 {
			srv.Log = nopLog{}
		}
		if rng.Intn(2) == 0 {
			srv.QueueStorage = &raceStorage{}
		}
		if rng.Intn(2) == 0 {
			srv.Authenticator = raceAuth{}
		}
		var l net.Listener
		var dial func() (net.Conn, error)
		name := "mem"
		if rng.Intn(2) == 0 {
			tl, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				r.Note("no TCP: " + err.Error())
				return
			}
			l, name = tl, "tcp"
			dial = func() (net.Conn, error) { return net.Dial("tcp", tl.Addr().String()) }
		} else {
			ml := newMemListener()
			l = ml
			dial = func() (net.Conn, error) { a, _ := ml.dial(); return a, nil }
		}
		defer l.Close()
		go func() { _ = srv.Serve(l) }()
		nc := 2 + rng.Intn(5)
		sigs := make([]string, nc)
		var counted atomic.Int64
		var wg sync.WaitGroup
		for k := 0; k < nc; k++ {
			cr := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for round := 0; round < 2; round++ {
					c, err := dial()
					if err != nil {
						return
					}
					if cr.Intn(5) == 0 {
						raceRaw(cr, c)
						continue
					}
					o := append(raceOpts(cr), stomp.ConnOpt.Login("u", "p"))
					conn, err := stomp.Connect(c, o...)
					if err != nil {
						_ = c.Close()
						continue
					}
					sigs[k] += r.raceUse("client of the server over "+name, cr, conn, func(how int) { _ = c.Close() }, []string{"/topic/a", "/topic/b", "/queue/a", "/queue/b"})
					counted.Add(conn.Stats().ReadsReceived)
				}
			}()
		}
		if !r.raceWait("clients of the server", &wg) {
			return
		}
		r.Count("race_server_messages", int(counted.Load()))
		s := name + ": " + strings.Join(sigs, "; ")
		r.Eval(s, true)
		r.Sample("server", s)
	})
}

// raceRaw is a client that knows no rules.
func raceRaw(rng *rand.Rand, c net.Conn) {
	go func() { _, _ = io.Copy(io.Discard, c) }()
	f := func(f *F) { _, _ = c.Write(f.enc()) }
	f(mk("CONNECT", "accept-version", "1.2", "login", "u", "passcode", "p", "host", "h", "heart-beat", fmt.Sprintf("0,%d", rng.Intn(20))))
	for k := 0; k < 10+rng.Intn(60); k++ {
		d := []string{"/topic/a", "/topic/b", "/queue/a", "/queue/b"}[rng.Intn(4)]
		switch rng.Intn(10) {
		case 0:
			f(mk("SUBSCRIBE", "id", fmt.Sprint(k), "destination", d, "ack", []string{"auto", "client", "client-individual"}[rng.Intn(3)]))
		case 1:
			f(mk("UNSUBSCRIBE", "id", fmt.Sprint(rng.Intn(k+1))))
		case 2:
			f(mk("BEGIN", "transaction", "t"))
			f(mk("SEND", "destination", d, "transaction", "t"))
			f(mk([]string{"COMMIT", "ABORT"}[rng.Intn(2)], "transaction", "t"))
		case 3:
			f(mk("ACK", "id", fmt.Sprint(rng.Intn(20))))
		default:
			f(mk("SEND", "destination", d, "receipt", fmt.Sprint("r", k)))
		}
		if rng.Intn(10) == 0 {
			time.Sleep(time.Duration(rng.Intn(1000)) * time.Microsecond)
		}
	}
	_ = c.Close()
}

// raceConnect: many connections are made at once from shared options, with contexts that end meanwhile.
func (r *R) raceConnect(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		opts := append(raceOpts(rng), stomp.ConnOpt.Header("x-a", "b"), stomp.ConnOpt.AcceptVersion(stomp.V11), stomp.ConnOpt.AcceptVersion(stomp.V12),
			stomp.ConnOpt.Host("h"), stomp.ConnOpt.Login("u", "p"))
		k := 4 + rng.Intn(12)
		var wg sync.WaitGroup
		start := make(chan struct{})
		made := make([]bool, k)
		for g := 0; g < k; g++ {
			a, b, _ := racePair(rng)
			p := &racePeer{c: b, rng: rand.New(rand.NewSource(rng.Int63())), version: []string{"1.1", "1.2"}[rng.Intn(2)]}
			mute := rng.Intn(4) == 0
			lim := time.Duration(rng.Intn(20000)) * time.Microsecond
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if !mute {
					go p.run()
				} else {
					go func() { _, _ = io.Copy(io.Discard, b) }()
				}
				ctx, cancel := context.WithTimeout(context.Background(), lim)
				defer cancel()
				conn, err := stomp.ConnectWithContext(ctx, a, opts...)
				if err == nil {
					made[g] = true
					s, err := conn.Subscribe("/topic/x", stomp.AckAuto)
					if err == nil {
						_ = conn.Send("/topic/x", "", []byte("x"))
						go func() {
							for range s.C {
							}
						}()
					}
					_ = conn.Disconnect()
				}
				_ = a.Close()
				_ = b.Close()
			}()
		}
		close(start)
		if !r.raceWait("connecting", &wg) {
			return
		}
		m := 0
		for _, x := range made {
			if x {
				m++
			}
		}
		r.Count("race_connects", k)
		r.Count("race_connected", m)
		r.Eval(fmt.Sprintf("connect|%d|%d", k, m), true)
	})
}
