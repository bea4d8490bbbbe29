package harness

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
)

// Daemon engine: the stand-alone server, built from the working tree and run as a process, and real clients over TCP on
// the loopback interface, in real time. Clients come, go, break off and misbehave; well-behaved ones are judged exactly,
// and at the end the process must be alive, have no descriptors left over, and have lost or repeated no message.

func init() { register("C37", checkC37) }

func checkC37(r *R) {
	r.Rule("one case = one process of the stand-alone server, serving generated producers, consumers and hostile clients over TCP; " +
		"non-trivial when messages were settled and at least one client broke off or misbehaved; distinct by the generated plan")
	r.Assume("the loopback interface delivers what is written and the sandbox gives every process some time within 60 s")
	r.daemonCases("daemon", r.N(48, 1500))
	r.listenCases("listen", r.N(12, 120))
	r.Require("daemon_settled", 1000)
	r.Require("daemon_broken_off", 30)
}

const daemonWait = 60 * time.Second // for things that take milliseconds

type daemon struct {
	cmd  *exec.Cmd
	addr string
	out  *lockedBuf
	done chan struct{}
	err  error
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	s := l.b.String()
	if i := strings.Index(s, "panic"); i > 0 {
		s = s[i:]
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// freeAddr finds a port below the range the kernel hands out by itself.
func freeAddr(rng *rand.Rand) string {
	for {
		a := fmt.Sprintf("127.0.0.1:%d", 12000+(rng.Intn(18000)+os.Getpid()*37)%18000)
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			return a
		}
	}
}

func (d *daemon) alive() bool {
	select {
	case <-d.done:
		return false
	default:
		return true
	}
}

func (d *daemon) kill() {
	_ = d.cmd.Process.Kill()
	<-d.done
}

func runDaemon(addr string) (*daemon, error) {
	d := &daemon{addr: addr, out: &lockedBuf{}, done: make(chan struct{})}
	d.cmd = exec.Command(os.Getenv("VERIF_STOMPD"), "-addr", addr)
	d.cmd.Stdout, d.cmd.Stderr = d.out, d.out
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := d.cmd.Start(); err != nil {
		return nil, err
	}
	go func() { d.err = d.cmd.Wait(); close(d.done) }()
	return d, nil
}

// startDaemon returns a process that listens; nil when the failure has been reported.
func (r *R) startDaemon(rng *rand.Rand) *daemon {
	for try := 0; try < 8; try++ {
		d, err := runDaemon(freeAddr(rng))
		if err != nil {
			panic("harness: cannot start the daemon: " + err.Error())
		}
		for t0 := time.Now(); time.Since(t0) < daemonWait && d.alive(); time.Sleep(5 * time.Millisecond) {
			if c, err := net.Dial("tcp", d.addr); err == nil {
				c.Close()
				time.Sleep(5 * time.Millisecond)
				if d.alive() {
					return d
				}
			}
		}
		if d.alive() {
			d.kill()
			r.Fail("not-listening", "the daemon runs but does not accept connections on "+d.addr, d.out.String())
			return nil
		}
		if l, err := net.Listen("tcp", d.addr); err == nil { // nobody has taken the port: it ended for another reason
			l.Close()
			if try == 7 {
				r.Fail("does-not-start", fmt.Sprintf("the daemon ended at once: %v", d.err), d.out.String())
			}
		}
	}
	return nil
}

func (d *daemon) fds() int {
	e, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", d.cmd.Process.Pid))
	if err != nil {
		return -1
	}
	return len(e)
}

func (d *daemon) rssMB() (mb int) {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", d.cmd.Process.Pid))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "VmRSS:") {
			var kb int
			fmt.Sscanf(strings.TrimPrefix(l, "VmRSS:"), "%d", &kb)
			mb = kb / 1024
		}
	}
	return
}

func hashBody(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() }

type dMsg struct {
	id, dest string
	body     uint64
	state    string // must, may, never (aborted or never committed)
	prod, n  int
	settled  string    // the connection whose settlement was confirmed
	at       time.Time // when
	maybe    bool      // a connection that broke off had acknowledged it
	seen     []string  // the connections that received it
}

type dWorld struct {
	r    *R
	d    *daemon
	mu   sync.Mutex
	m    map[string]*dMsg
	bad  bool
	log  []string
	nRcv int
}

func (w *dWorld) logf(f string, a ...any) {
	w.mu.Lock()
	w.log = append(w.log, fmt.Sprintf(f, a...))
	w.mu.Unlock()
}

func (w *dWorld) fail(key, what string) {
	w.mu.Lock()
	first := !w.bad
	w.bad = true
	log := tail(w.log, 60)
	w.mu.Unlock()
	if !first {
		return
	}
	if !w.d.alive() {
		key, what = "daemon-ended", fmt.Sprintf("the daemon has ended by itself (%v); first noticed: %s", w.d.err, what)
	}
	w.r.Fail(key, what, map[string]any{"log": log, "daemon_output": w.d.out.String()})
}

func (w *dWorld) failed() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.bad }

// dial connects a client over a TCP connection of our own, so that it can be broken off.
func (w *dWorld) dial(name string, rng *rand.Rand) (*stomp.Conn, *net.TCPConn) {
	opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nopLog{}), stomp.ConnOpt.MsgSendTimeout(daemonWait), stomp.ConnOpt.RcvReceiptTimeout(daemonWait)}
	switch rng.Intn(4) {
	case 0:
		opts = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V11), stomp.ConnOpt.AcceptVersion(stomp.V12))
	case 1:
		opts = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V12), stomp.ConnOpt.HeartBeat(0, 0))
	}
	nc, err := net.Dial("tcp", w.d.addr)
	if err != nil {
		w.fail("refused", name+" cannot connect: "+err.Error())
		return nil, nil
	}
	type res struct {
		c   *stomp.Conn
		err error
	}
	ch := make(chan res, 1)
	go func() { c, err := stomp.Connect(nc, opts...); ch <- res{c, err} }()
	select {
	case x := <-ch:
		if x.err != nil {
			w.fail("refused", name+" cannot connect: "+x.err.Error())
			nc.Close()
			return nil, nil
		}
		return x.c, nc.(*net.TCPConn)
	case <-time.After(daemonWait):
		w.fail("no-answer", name+" sent CONNECT and has no answer")
		nc.Close()
		return nil, nil
	}
}

func breakOff(c *net.TCPConn, rng *rand.Rand) string {
	switch rng.Intn(3) {
	case 0:
		_ = c.SetLinger(0)
		c.Close()
		return "reset"
	case 1:
		_ = c.CloseWrite()
		go func() { time.Sleep(time.Second); c.Close() }()
		return "half-closed"
	}
	c.Close()
	return "closed"
}

// received records a message and judges what can be judged at once. ok=false: not one of ours.
func (w *dWorld) received(conn, dest string, since time.Time, msg *stomp.Message) (*dMsg, bool) {
	id := msg.Header.Get("x-id")
	w.mu.Lock()
	m := w.m[id]
	w.nRcv++
	var bad [2]string
	switch {
	case m == nil:
		bad = [2]string{"unknown-message", fmt.Sprintf("%s received a message %q that nobody sent", conn, id)}
	case m.dest != dest || msg.Destination != dest:
		bad = [2]string{"wrong-destination", fmt.Sprintf("%s received %s, sent to %s, on a subscription to %s (destination header %s)", conn, id, m.dest, dest, msg.Destination)}
	case m.body != hashBody(msg.Body):
		bad = [2]string{"content", fmt.Sprintf("%s received %s with a different body (%d bytes)", conn, id, len(msg.Body))}
	case m.state == "never":
		bad = [2]string{"uncommitted", fmt.Sprintf("%s received %s, which was sent in a transaction that was aborted or not committed", conn, id)}
	case m.settled != "" && since.After(m.at):
		bad = [2]string{"delivered-again", fmt.Sprintf("%s received %s, which %s had acknowledged, with confirmation, before %s subscribed", conn, id, m.settled, conn)}
	default:
		m.seen = append(m.seen, conn)
	}
	w.mu.Unlock()
	if bad[0] != "" {
		w.fail(bad[0], bad[1])
		return nil, false
	}
	return m, true
}

func (w *dWorld) confirm(conn string, ms []*dMsg) {
	w.mu.Lock()
	now := time.Now()
	bad := ""
	for _, m := range ms {
		if m.settled != "" && m.settled != conn {
			bad = fmt.Sprintf("%s was acknowledged with confirmation by %s and by %s (received by %v)", m.id, m.settled, conn, m.seen)
		}
		m.settled, m.at = conn, now
	}
	w.mu.Unlock()
	if bad != "" {
		w.fail("settled-twice", bad)
	}
}

func (w *dWorld) producer(p, n int, queues []string, topic string, breaks bool, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	name := fmt.Sprintf("p%d", p)
	c, nc := w.dial(name, rng)
	if c == nil {
		return
	}
	var open []*dMsg // sent, not confirmed
	mark := func(ms []*dMsg, st string) {
		w.mu.Lock()
		for _, m := range ms {
			m.state = st
		}
		w.mu.Unlock()
	}
	stopAt := n
	if breaks {
		stopAt = rng.Intn(n)
	}
	for k := 0; k < stopAt && !w.failed(); k++ {
		mk := func(tx bool) (*dMsg, []byte) {
			b := randBody(rng, pickI(rng, 0, 10, 100, 3000, 40000), true)
			m := &dMsg{id: fmt.Sprintf("%s-%d-%d", name, k, rng.Int31()), dest: queues[rng.Intn(len(queues))], body: hashBody(b), state: "may", prod: p, n: k}
			if rng.Intn(4) == 0 {
				m.dest = topic
			}
			if tx {
				m.state = "never"
			}
			w.mu.Lock()
			w.m[m.id] = m
			w.mu.Unlock()
			return m, b
		}
		var err error
		if rng.Intn(6) == 0 {
			tx := c.Begin()
			var ms []*dMsg
			for j := 1 + rng.Intn(4); j > 0 && err == nil; j-- {
				m, b := mk(true)
				ms = append(ms, m)
				err = tx.Send(m.dest, "application/octet-stream", b, stomp.SendOpt.Header("x-id", m.id), stomp.SendOpt.Header("x-n", fmt.Sprint(k)))
			}
			if err == nil {
				switch rng.Intn(3) {
				case 0:
					err = tx.Abort()
				case 1:
					mark(ms, "may")
					if err = tx.CommitWithReceipt(); err == nil {
						mark(ms, "must")
						mark(open, "must")
						open = nil
					}
				default:
					mark(ms, "may")
					err = tx.Commit()
					open = append(open, ms...)
				}
			}
		} else {
			m, b := mk(false)
			o := []func(*frame.Frame) error{stomp.SendOpt.Header("x-id", m.id), stomp.SendOpt.Header("x-n", fmt.Sprint(k))}
			rcpt := rng.Intn(4) == 0
			if rcpt {
				o = append(o, stomp.SendOpt.Receipt)
			}
			err = c.Send(m.dest, "application/octet-stream", b, o...)
			open = append(open, m)
			if rcpt && err == nil {
				mark(open, "must")
				open = nil
			}
		}
		if err != nil {
			w.fail("send-failed", fmt.Sprintf("%s: a call failed on a healthy connection: %v", name, err))
			return
		}
		if rng.Intn(20) == 0 {
			time.Sleep(time.Duration(rng.Intn(5)) * time.Millisecond)
		}
	}
	if breaks {
		w.r.Count("daemon_broken_off", 1)
		w.logf("%s breaks off: %s", name, breakOff(nc, rng))
		go func() { _ = c.MustDisconnect() }()
		return
	}
	if err := c.Disconnect(); err != nil {
		w.fail("disconnect-failed", fmt.Sprintf("%s: Disconnect: %v", name, err))
		return
	}
	mark(open, "must")
	nc.Close()
}

// consumer subscribes with acknowledgement, takes up to n messages and settles some of them. It ends as told.
func (w *dWorld) consumer(name, q string, n int, ending string, seed int64, stop <-chan struct{}) {
	rng := rand.New(rand.NewSource(seed))
	c, nc := w.dial(name, rng)
	if c == nil {
		return
	}
	mode := []stomp.AckMode{stomp.AckClientIndividual, stomp.AckClient}[rng.Intn(2)]
	since := time.Now()
	sub, err := c.Subscribe(q, mode)
	if err != nil {
		w.fail("subscribe-failed", fmt.Sprintf("%s: Subscribe: %v", name, err))
		return
	}
	var acked []*dMsg
	mine := map[string]bool{}
	doubt := func() {
		w.mu.Lock()
		for _, m := range acked {
			m.maybe = true
		}
		w.mu.Unlock()
	}
	flush := func() bool {
		if err := c.Send("/topic/void", "", nil, stomp.SendOpt.Receipt); err != nil {
			w.fail("send-failed", fmt.Sprintf("%s: a confirmed Send failed on a healthy connection: %v", name, err))
			return false
		}
		w.confirm(name, acked)
		w.r.Count("daemon_settled", len(acked))
		acked = nil
		return true
	}
	idle := time.Duration(0)
	for k := 0; k < n && !w.failed(); {
		var msg *stomp.Message
		select {
		case msg = <-sub.C:
			idle = 0
		case <-stop:
			k = n
			continue
		case <-time.After(200 * time.Millisecond):
			if idle += 200 * time.Millisecond; idle > 600*time.Millisecond && ending != "drain" {
				k = n
			}
			continue
		}
		if msg == nil || msg.Err != nil {
			e := "channel closed"
			if msg != nil {
				e = msg.Err.Error()
			}
			w.fail("subscription-ended", fmt.Sprintf("%s: the subscription of a healthy connection ended: %s", name, e))
			return
		}
		k++
		m, ok := w.received(name, q, since, msg)
		if !ok {
			return
		}
		if mine[m.id] {
			w.fail("delivered-twice", fmt.Sprintf("%s received %s twice on one subscription, without rejecting it in between", name, m.id))
			return
		}
		mine[m.id] = true
		switch x := rng.Intn(20); {
		case x < 2 && ending != "drain":
			err = c.Nack(msg)
			delete(mine, m.id)
			k += 3
		case x < 5:
			tx := c.Begin()
			if err = tx.Ack(msg); err == nil {
				acked = append(acked, m)
				doubt()
				err = tx.Commit()
			}
		case x < 6 && ending != "drain":
			// acknowledged in a transaction that is aborted, then for good
			tx := c.Begin()
			if err = tx.Ack(msg); err == nil {
				if err = tx.Abort(); err == nil {
					acked = append(acked, m)
					doubt()
					err = c.Ack(msg)
				}
			}
		default:
			acked = append(acked, m)
			doubt()
			err = c.Ack(msg)
		}
		if err != nil {
			w.fail("ack-failed", fmt.Sprintf("%s: acknowledging failed on a healthy connection: %v", name, err))
			return
		}
		if rng.Intn(8) == 0 && !flush() {
			return
		}
	}
	if w.failed() {
		nc.Close()
		return
	}
	switch ending {
	case "break":
		w.r.Count("daemon_broken_off", 1)
		w.logf("%s breaks off: %s", name, breakOff(nc, rng))
		go func() { _ = c.MustDisconnect() }()
	case "unsubscribe", "drain":
		if rng.Intn(2) == 0 {
			if err := sub.Unsubscribe(); err != nil {
				w.fail("unsubscribe-failed", fmt.Sprintf("%s: Unsubscribe: %v", name, err))
				return
			}
		} else {
			go func() {
				for range sub.C {
				}
			}()
		}
		if !flush() {
			return
		}
		fallthrough
	default:
		go func() {
			for range sub.C {
			}
		}()
		if err := c.Disconnect(); err != nil {
			w.fail("disconnect-failed", fmt.Sprintf("%s: Disconnect: %v", name, err))
			return
		}
		w.confirm(name, acked)
		w.r.Count("daemon_settled", len(acked))
		nc.Close()
	}
}

// watcher is a well-behaved subscriber of the topic: it receives everything, once, and in each producer's order.
func (w *dWorld) watcher(name, topic string, ready *sync.WaitGroup, expect func() (map[string]bool, bool), seed int64) {
	rng := rand.New(rand.NewSource(seed))
	c, nc := w.dial(name, rng)
	if c == nil {
		ready.Done()
		return
	}
	since := time.Now()
	sub, err := c.Subscribe(topic, []stomp.AckMode{stomp.AckAuto, stomp.AckClientIndividual}[rng.Intn(2)], stomp.SubscribeOpt.Header("x", "y"))
	if err == nil {
		err = c.Send("/topic/void", "", nil, stomp.SendOpt.Receipt)
	}
	ready.Done()
	if err != nil {
		w.fail("subscribe-failed", fmt.Sprintf("%s: %v", name, err))
		return
	}
	got, last := map[string]bool{}, map[int]int{}
	var since0 time.Time
	for !w.failed() {
		if want, final := expect(); final {
			missing := ""
			for id := range want {
				if !got[id] {
					missing = id
					break
				}
			}
			if missing == "" {
				break
			}
			if since0.IsZero() {
				since0 = time.Now()
			}
			if time.Since(since0) > daemonWait/2 {
				w.fail("topic-lost", fmt.Sprintf("%s has not received %s, which was sent to the topic it was subscribed to", name, missing))
				return
			}
		}
		select {
		case msg := <-sub.C:
			if msg == nil || msg.Err != nil {
				w.fail("subscription-ended", fmt.Sprintf("%s: the subscription of a healthy connection ended: %v", name, msg))
				return
			}
			m, ok := w.received(name, topic, since, msg)
			if !ok {
				return
			}
			if got[m.id] {
				w.fail("topic-twice", fmt.Sprintf("%s received %s twice", name, m.id))
				return
			}
			if m.n < last[m.prod] {
				w.fail("topic-order", fmt.Sprintf("%s received %s after a later message of the same producer", name, m.id))
				return
			}
			got[m.id], last[m.prod] = true, m.n
			if err := c.Ack(msg); err != nil {
				w.fail("ack-failed", fmt.Sprintf("%s: Ack: %v", name, err))
				return
			}
		case <-time.After(20 * time.Millisecond):
		}
	}
	w.r.Count("daemon_topic_messages", len(got))
	go func() {
		for range sub.C {
		}
	}()
	if err := c.Disconnect(); err != nil {
		w.fail("disconnect-failed", fmt.Sprintf("%s: Disconnect: %v", name, err))
	}
	nc.Close()
}

// hostile does something a server on the internet has to put up with; release is closed when it may go.
func (w *dWorld) hostile(k int, topic string, release <-chan struct{}, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	c, err := net.Dial("tcp", w.d.addr)
	if err != nil {
		w.fail("refused", "a client cannot connect: "+err.Error())
		return
	}
	defer c.Close()
	tc := c.(*net.TCPConn)
	connect := "CONNECT\naccept-version:1.2\nhost:h\n\n\x00"
	kind := rng.Intn(9)
	what := ""
	put := func(s string) { _ = c.SetWriteDeadline(time.Now().Add(5 * time.Second)); _, _ = io.WriteString(c, s) }
	switch kind {
	case 0:
		what = "says nothing"
	case 1:
		what = "sends garbage"
		put(string(randBody(rng, 1+rng.Intn(5000), true)))
	case 2:
		what = "sends half a CONNECT"
		put(connect[:1+rng.Intn(len(connect)-2)])
	case 3:
		what = "announces a huge body"
		put(connect + "SEND\ndestination:/queue/x\ncontent-length:" + []string{"2147483647", "99999999999999", "1073741824"}[rng.Intn(3)] + "\n\nabc")
	case 4:
		what = "never reads what it subscribed to"
		put(connect + "SUBSCRIBE\nid:1\ndestination:" + topic + "\n\n\x00")
	case 5:
		what = "goes at once"
		_ = tc.SetLinger(0)
		return
	case 6:
		what = "sends an invalid frame"
		put(connect + []string{"ACK\nid:77\n\n\x00", "SEND\n\n\x00", "NOPE\n\n\x00", "SUBSCRIBE\n\n\x00", "BEGIN\n\n\x00", "COMMIT\ntransaction:x\n\n\x00", "SEND\ndestination:/queue/x\ncontent-length:-1\n\nx\x00", "CONNECTED\nversion:1.2\n\n\x00"}[rng.Intn(8)])
	case 7:
		what = "trickles its CONNECT"
		for i := range connect {
			put(connect[i : i+1])
			time.Sleep(time.Millisecond)
		}
	default:
		what = "leaves a transaction and a half-sent message"
		put(connect + "BEGIN\ntransaction:t\n\n\x00SEND\ntransaction:t\ndestination:/queue/x\nx-id:bad\n\nx\x00SEND\ndestination:/queue/a\nx-id:bad\n\nhalf")
	}
	w.logf("hostile %d %s", k, what)
	w.r.Count("daemon_hostile", 1)
	if rng.Intn(2) == 0 {
		time.Sleep(time.Duration(rng.Intn(200)) * time.Millisecond)
		breakOff(tc, rng)
		return
	}
	<-release
}

func (r *R) daemonCases(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		runtime.LockOSThread() // the death signal of the child is tied to the thread
		defer runtime.UnlockOSThread()
		d := r.startDaemon(rng)
		if d == nil {
			return
		}
		defer d.kill()
		w := &dWorld{r: r, d: d, m: map[string]*dMsg{}}
		if c, nc := w.dial("first", rng); c != nil {
			_ = c.Disconnect()
			nc.Close()
		} else {
			return
		}
		// descriptors in use when nobody is connected
		base := d.fds()
		for t0 := time.Now(); time.Since(t0) < time.Second; time.Sleep(20 * time.Millisecond) {
			base = min(base, d.fds())
		}
		queues := []string{"/queue/a", "/queue/b", "/queue/c"}[:1+rng.Intn(3)]
		topic := "/topic/t"
		np, nw, nh := 1+rng.Intn(4), rng.Intn(3), rng.Intn(12)
		per := 20 + rng.Intn(120)
		plan := fmt.Sprint(i, len(queues), np, nw, nh, per)
		release, stop := make(chan struct{}), make(chan struct{})
		final := make(chan struct{})
		expect := func() (map[string]bool, bool) {
			select {
			case <-final:
			default:
				return nil, false
			}
			w.mu.Lock()
			defer w.mu.Unlock()
			x := map[string]bool{}
			for id, m := range w.m {
				if m.state == "must" && m.dest == topic {
					x[id] = true
				}
			}
			return x, true
		}
		var ready, watchers, prods, cons, hosts sync.WaitGroup
		for k := 0; k < nw; k++ {
			ready.Add(1)
			watchers.Add(1)
			s := rng.Int63()
			go func() { defer watchers.Done(); w.watcher(fmt.Sprintf("w%d", k), topic, &ready, expect, s) }()
		}
		ready.Wait()
		for k := 0; k < nh; k++ {
			hosts.Add(1)
			s := rng.Int63()
			go func() { defer hosts.Done(); w.hostile(k, topic, release, s) }()
		}
		for k := 0; k < np; k++ {
			prods.Add(1)
			s, br := rng.Int63(), rng.Intn(3) == 0
			go func() { defer prods.Done(); w.producer(k, per, queues, topic, br, s) }()
		}
		broke := false
		for k := 0; k < 1+rng.Intn(4); k++ {
			cons.Add(1)
			lives := 1 + rng.Intn(5)
			qn, seeds, ends, takes := []string{}, []int64{}, []string{}, []int{}
			for l := 0; l < lives; l++ {
				qn, seeds, takes = append(qn, queues[rng.Intn(len(queues))]), append(seeds, rng.Int63()), append(takes, 1+rng.Intn(60))
				ends = append(ends, []string{"break", "break", "unsubscribe", "disconnect"}[rng.Intn(4)])
				broke = broke || ends[l] == "break"
			}
			go func() {
				defer cons.Done()
				for l := range qn {
					if w.failed() {
						return
					}
					w.consumer(fmt.Sprintf("c%d.%d", k, l), qn[l], takes[l], ends[l], seeds[l], stop)
				}
			}()
		}
		wait := func(wg *sync.WaitGroup, what string) bool {
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
				return true
			case <-time.After(2 * daemonWait):
				w.fail("stuck", what+" have not come to an end; no progress over TCP")
				return false
			}
		}
		defer func() {
			select {
			case <-release:
			default:
				close(release)
			}
		}()
		if !wait(&prods, "the producers") || !wait(&cons, "the consumers") || w.failed() {
			return
		}
		close(final)
		// what is left in the queues
		var drains sync.WaitGroup
		for k, q := range queues {
			drains.Add(1)
			s := rng.Int63()
			go func() {
				defer drains.Done()
				w.consumer(fmt.Sprintf("drain%d", k), q, 1<<30, "drain", s, stop)
			}()
		}
		lost := func() (id string) {
			w.mu.Lock()
			defer w.mu.Unlock()
			for _, m := range w.m {
				if m.state != "must" || m.dest == topic || m.settled != "" || m.maybe {
					continue
				}
				if n := len(m.seen); n == 0 || !strings.HasPrefix(m.seen[n-1], "drain") {
					return m.id + fmt.Sprintf(" (to %s, received by %v)", m.dest, m.seen)
				}
			}
			return ""
		}
		for t0 := time.Now(); !w.failed(); time.Sleep(10 * time.Millisecond) {
			id := lost()
			if id == "" {
				break
			}
			if time.Since(t0) > daemonWait/2 {
				w.fail("queue-lost", "a message whose acceptance was confirmed is lost: "+id)
			}
		}
		w.mu.Lock()
		seen := -1
		w.mu.Unlock()
		for { // until nothing more comes
			time.Sleep(300 * time.Millisecond)
			w.mu.Lock()
			n := w.nRcv
			w.mu.Unlock()
			if n == seen {
				break
			}
			seen = n
		}
		close(stop)
		if !wait(&drains, "the last consumers") || !wait(&watchers, "the topic subscribers") {
			return
		}
		close(release)
		if !wait(&hosts, "the hostile clients") || w.failed() {
			return
		}
		// nobody is connected any more
		left := 0
		for t0 := time.Now(); time.Since(t0) < daemonWait/2; time.Sleep(20 * time.Millisecond) {
			if left = d.fds(); left <= base || !d.alive() {
				break
			}
		}
		if left > base {
			w.fail("descriptors", fmt.Sprintf("all clients are gone for %v, and the daemon has %d open descriptors, %d when it started", daemonWait/2, left, base))
			return
		}
		if c, nc := w.dial("last", rng); c != nil {
			if err := c.Send("/topic/void", "", nil, stomp.SendOpt.Receipt); err != nil {
				w.fail("send-failed", "after everything, a client's confirmed Send fails: "+err.Error())
			}
			if err := c.Disconnect(); err != nil {
				w.fail("disconnect-failed", "after everything, a client's Disconnect fails: "+err.Error())
			}
			nc.Close()
		}
		if !d.alive() {
			w.fail("daemon-ended", "noticed at the end")
		}
		if mb := d.rssMB(); mb > 1500 {
			w.fail("memory", fmt.Sprintf("the daemon uses %d MB after serving some %d messages", mb, len(w.m)))
		} else {
			r.Max("daemon_rss_mb", mb)
		}
		r.Count("daemon_messages", len(w.m))
		r.Count("daemon_received", w.nRcv)
		r.Eval(plan, (broke || nh > 0) && w.nRcv > 0)
		r.Sample("daemon", map[string]any{"producers": np, "each": per, "queues": queues, "hostile": nh, "log": tail(w.log, 15)})
	})
}

// listenCases: the ways to start a server and to reach one.
func (r *R) listenCases(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		within := func(what string, f func() string) bool {
			ch := make(chan string, 1)
			go func() { ch <- f() }()
			select {
			case s := <-ch:
				if s != "" {
					r.Fail("listen", what+": "+s, nil)
				}
				return s == ""
			case <-time.After(daemonWait):
				r.Fail("listen", what+" takes more than a minute", nil)
				return false
			}
		}
		serves := func(addr string) string {
			c, err := stomp.Dial("tcp", addr, stomp.ConnOpt.Logger(nopLog{}))
			if err != nil {
				return "Dial: " + err.Error()
			}
			sub, err := c.Subscribe("/queue/q", stomp.AckClientIndividual)
			if err != nil {
				return "Subscribe: " + err.Error()
			}
			if err = c.Send("/queue/q", "text/plain", []byte("hello"), stomp.SendOpt.Receipt); err != nil {
				return "Send: " + err.Error()
			}
			m := <-sub.C
			if m == nil || m.Err != nil || string(m.Body) != "hello" {
				return fmt.Sprintf("received %v", m)
			}
			if err = c.Ack(m); err != nil {
				return "Ack: " + err.Error()
			}
			if err = c.Disconnect(); err != nil {
				return "Disconnect: " + err.Error()
			}
			return ""
		}
		switch i % 4 {
		case 0: // a port that is in use
			d := r.startDaemon(rng)
			if d == nil {
				return
			}
			defer d.kill()
			d2, err := runDaemon(d.addr)
			if err != nil {
				panic(err)
			}
			select {
			case <-d2.done:
				if d2.err == nil {
					r.Fail("port-in-use", "a second daemon on the same address ended with status 0", d2.out.String())
				}
			case <-time.After(daemonWait / 2):
				r.Fail("port-in-use", "a second daemon on the same address neither serves nor ends", d2.out.String())
				d2.kill()
			}
			within("ListenAndServe on an address that is in use", func() string {
				if server.ListenAndServe(d.addr) == nil {
					return "no error"
				}
				return ""
			})
			within("the first daemon", func() string { return serves(d.addr) })
		case 1: // the package function
			addr := freeAddr(rng)
			errs := make(chan error, 1)
			go func() { errs <- server.ListenAndServe(addr) }()
			if !r.reach(addr, errs) {
				return
			}
			within("ListenAndServe(addr)", func() string { return serves(addr) })
		case 2: // the method
			addr := freeAddr(rng)
			s := &server.Server{Addr: addr, Log: nopLog{}, HeartBeat: time.Duration(rng.Intn(3)) * time.Minute}
			errs := make(chan error, 1)
			go func() { errs <- s.ListenAndServe() }()
			if !r.reach(addr, errs) {
				return
			}
			within("Server.ListenAndServe", func() string { return serves(addr) })
		default: // a listener of our own, and its end
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			errs := make(chan error, 1)
			go func() { errs <- server.Serve(l) }()
			if within("Serve(l)", func() string { return serves(l.Addr().String()) }) {
				addr := l.Addr().String()
				l.Close()
				within("Dial to an address where nobody listens", func() string {
					c, err := stomp.Dial("tcp", addr)
					if err == nil || c != nil {
						return fmt.Sprintf("returned %v, %v", c, err)
					}
					return ""
				})
			}
		}
		r.Count("listen_cases", 1)
		r.Eval(fmt.Sprint(label, i), true)
	})
}

func (r *R) reach(addr string, errs chan error) bool {
	for t0 := time.Now(); time.Since(t0) < daemonWait; time.Sleep(5 * time.Millisecond) {
		select {
		case err := <-errs:
			r.Fail("listen", fmt.Sprintf("ListenAndServe on the free address %s returned %v", addr, err), nil)
			return false
		default:
		}
		if c, err := net.Dial("tcp", addr); err == nil {
			c.Close()
			return true
		}
	}
	r.Fail("listen", "ListenAndServe does not listen on "+addr, nil)
	return false
}
