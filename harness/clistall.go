package harness

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
)

// cliStalledPeer: the peer stops reading, so frames pile up in the client. Calls with a timeout must still return in
// time, and disconnecting must release everything.
func (r *R) cliStalledPeer(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		r.inClient(rng, func(w *srvWorld) {
			props := []string{"C11", "C16", "C17", "C15"}
			m := &cliModel{w: w, r: r, rng: rng, prof: wts("send", 1)}
			ms := func() time.Duration { return time.Duration(1+rng.Intn(5000)) * time.Millisecond }
			m.rcvT, m.unsubT, m.discT = ms(), ms(), ms()
			sendT := ms()
			if !m.connect(stomp.ConnOpt.MsgSendTimeout(sendT)) {
				return
			}
			var subs []*stomp.Subscription
			for k := 0; k < 3; k++ {
				s, err := m.conn.Subscribe("/queue/x", stomp.AckClient)
				if err != nil {
					m.fail(props, "subscribe", err.Error(), nil)
					return
				}
				subs = append(subs, s)
				go func() {
					for range s.C {
					}
				}()
			}
			synctest.Wait()
			m.peer.c.Pause(true)
			m.peer.c.SetInCap(1 + rng.Intn(500))
			type res struct {
				name     string
				start    time.Duration
				timeout  time.Duration
				text     string
				at       time.Duration
				err      error
				done     bool
				blocking bool
			}
			var mu sync.Mutex
			var all []*res
			start := func(name string, timeout time.Duration, text string, f func() error) {
				x := &res{name: name, start: w.now(), timeout: timeout, text: text, blocking: text == ""}
				mu.Lock()
				all = append(all, x)
				mu.Unlock()
				go func() {
					err := f()
					mu.Lock()
					x.err, x.at, x.done = err, w.now(), true
					mu.Unlock()
				}()
			}
			kinds := []string{"begin", "ack", "send", "send", "sendr", "sub"}
			for k, n := 0, 30+rng.Intn(60); k < n; k++ {
				switch kinds[rng.Intn(len(kinds))] {
				case "begin":
					start("Begin", 0, "", func() error { _, err := m.conn.BeginWithError(); return err })
				case "ack":
					s := subs[rng.Intn(len(subs))]
					msg := &stomp.Message{Conn: m.conn, Subscription: s, Header: frame.NewHeader("message-id", "m", "ack", "a")}
					start("Ack", 0, "", func() error { return m.conn.Ack(msg) })
				case "send":
					start("Send", sendT, stomp.ErrMsgSendTimeout.Error(), func() error { return m.conn.Send("/queue/x", "", make([]byte, 200)) })
				case "sendr":
					start("Send with receipt", sendT+m.rcvT, "*", func() error {
						return m.conn.Send("/queue/x", "", make([]byte, 200), stomp.SendOpt.Receipt)
					})
				case "sub":
					start("Subscribe", 0, "", func() error { _, err := m.conn.Subscribe("/queue/y", stomp.AckAuto); return err })
				}
				if rng.Intn(4) == 0 {
					synctest.Wait()
				}
				if rng.Intn(10) == 0 {
					time.Sleep(time.Duration(rng.Intn(10)) * time.Millisecond)
				}
			}
			synctest.Wait()
			for k := 0; k < 2; k++ {
				if rng.Intn(2) == 0 {
					s := subs[k]
					start("Unsubscribe", m.unsubT, stomp.ErrUnsubscribeReceiptTimeout.Error(), func() error { return s.Unsubscribe() })
				}
				if rng.Intn(3) == 0 {
					time.Sleep(time.Duration(rng.Intn(2000)) * time.Millisecond)
				}
			}
			must := rng.Intn(4) == 0
			check := func(x *res, end time.Duration) bool {
				// end: when the connection was closed, -1: not yet
				now := w.now()
				limit := x.start + x.timeout
				switch {
				case x.timeout > 0 && !x.done && now > limit:
					m.fail(props, "no-timeout", fmt.Sprintf("%s has not returned %v after it was called, its timeout is %v; the peer does not read", x.name, now-x.start, x.timeout), stompStates())
					return false
				case x.done && x.timeout > 0 && x.err != nil && x.at > limit:
					m.fail(props, "late-timeout", fmt.Sprintf("%s returned after %v, its timeout is %v; the peer does not read", x.name, x.at-x.start, x.timeout), nil)
					return false
				case x.done && x.err != nil && (end < 0 || x.at < end):
					if x.text == "*" {
						// nothing leaves the client, so the request has room at once or never
						took := x.at - x.start
						if t := x.err.Error(); t == stomp.ErrMsgSendTimeout.Error() && took != sendT || t == stomp.ErrMsgReceiptTimeout.Error() && took != m.rcvT {
							m.fail(props, "wrong-time", fmt.Sprintf("%s returned %v after %v, the timeouts are %v and %v", x.name, x.err, took, sendT, m.rcvT), nil)
							return false
						} else if t != stomp.ErrMsgSendTimeout.Error() && t != stomp.ErrMsgReceiptTimeout.Error() {
							m.fail(props, "wrong-error", fmt.Sprintf("%s returned %v at %v, disconnecting returned at %v", x.name, x.err, x.at, end), nil)
							return false
						}
					} else if x.err.Error() != x.text || x.at != limit {
						m.fail(props, "wrong-error", fmt.Sprintf("%s returned %v after %v, expected %q after %v", x.name, x.err, x.at-x.start, x.text, x.timeout), nil)
						return false
					}
					r.Count("stalled_timeouts", 1)
				}
				return true
			}
			if rng.Intn(2) == 0 {
				time.Sleep(sendT + m.rcvT + m.unsubT + time.Millisecond)
				synctest.Wait()
				for _, x := range all {
					if !check(x, -1) {
						break
					}
				}
			}
			began := w.now()
			var derr error
			var dat time.Duration
			over := make(chan struct{})
			go func() {
				defer close(over)
				if must {
					derr = m.conn.MustDisconnect()
				} else {
					derr = m.conn.Disconnect()
				}
				dat = w.now()
			}()
			if !m.failed {
				time.Sleep(m.discT + 2*time.Millisecond)
				synctest.Wait()
				select {
				case <-over:
					want := began + m.discT
					if must {
						want = began
					}
					if dat != want {
						m.fail(props, "disconnect-late", fmt.Sprintf("disconnecting took %v, the timeout is %v (abrupt: %v)", dat-began, m.discT, must), nil)
					} else if !must && (derr == nil || derr.Error() != stomp.ErrDisconnectReceiptTimeout.Error()) || must && derr != nil {
						m.fail(props, "disconnect-result", fmt.Sprintf("disconnecting (abrupt: %v) returned %v although no RECEIPT has come", must, derr), nil)
					}
					r.Count("stalled_disconnects", 1)
				default:
					m.fail(props, "disconnect-hangs", fmt.Sprintf("Disconnect (abrupt: %v) does not return within its timeout %v; the peer does not read", must, m.discT), stompStates())
				}
			}
			if !m.failed {
				mu.Lock()
				for _, x := range all {
					if !x.done {
						m.fail(props, "call-left", fmt.Sprintf("%s does not return although the connection has been closed", x.name), stompStates())
						break
					}
					if !check(x, dat) {
						break
					}
				}
				mu.Unlock()
				if m.a.closeCount.Load() == 0 {
					m.fail(props, "not-closed", "the network connection is not closed after disconnecting", nil)
				}
			}
			m.peer.c.Pause(false)
			m.peer.c.Reset()
			_ = m.a.Close()
			time.Sleep(time.Minute)
			synctest.Wait()
			if n := libGoroutines(); n != w.base && !m.failed {
				m.fail(props, "goroutines-left", fmt.Sprintf("%d goroutines of the library are left after the connection has ended", n-w.base), stompStates())
			}
			r.Count("stalled_peers", 1)
			r.Eval(fmt.Sprintf("stalled|%d|%v", len(all), must), true)
		})
	})
}

// cliShortTimeouts: in real time, a Disconnect with a timeout of next to nothing. Whatever it returns, the connection is
// over when it has returned.
func (r *R) cliShortTimeouts(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		a, b := memPipe()
		fail := func(key, what string) { r.Fail(key, what, nil) }
		peerOver := make(chan struct{})
		var frames []*F
		go func() {
			defer close(peerOver)
			ds := newDecStream(b)
			for {
				f, err := ds.next()
				if err != nil {
					return
				}
				frames = append(frames, f)
				if f.Cmd == "CONNECT" {
					_, _ = b.Write(mk("CONNECTED", "version", "1.2").enc())
				} else if id, ok := f.get("receipt"); ok {
					_, _ = b.Write(mk("RECEIPT", "receipt-id", id).enc())
				}
			}
		}()
		timeout := time.Duration(1 + rng.Intn(1<<uint(rng.Intn(18))))
		conn, err := stomp.Connect(a, stomp.ConnOpt.Logger(nopLog{}), stomp.ConnOpt.DisconnectReceiptTimeout(timeout))
		if err != nil {
			fail("connect", err.Error())
			return
		}
		for k := rng.Intn(4); k > 0; k-- {
			_ = conn.Send("/queue/a", "", []byte("x"))
		}
		var wg sync.WaitGroup
		for k := rng.Intn(3); k > 0; k-- {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_ = conn.Send("/queue/a", "", []byte("x"))
			}()
		}
		derr := conn.Disconnect()
		if derr != nil && derr.Error() != stomp.ErrDisconnectReceiptTimeout.Error() {
			fail("disconnect-result", fmt.Sprintf("Disconnect with a timeout of %v returned %v", timeout, derr))
		}
		if derr != nil {
			r.Count("short_timeouts", 1)
		}
		for k := 0; k < 3; k++ {
			if err := conn.Send("/queue/late", "", []byte("late")); err == nil {
				fail("send-after-disconnect", fmt.Sprintf("a send was accepted after Disconnect with a timeout of %v had returned %v", timeout, derr))
			}
			if _, err := conn.Subscribe("/queue/late", stomp.AckAuto); err == nil {
				fail("send-after-disconnect", fmt.Sprintf("a subscription was accepted after Disconnect with a timeout of %v had returned %v", timeout, derr))
			}
		}
		if a.closeCount.Load() == 0 {
			fail("not-closed", fmt.Sprintf("the network connection is open after Disconnect with a timeout of %v has returned %v", timeout, derr))
		}
		wg.Wait()
		if err := conn.Disconnect(); err != nil {
			fail("disconnect-again", "a second Disconnect returned "+err.Error())
		}
		_ = a.Close()
		b.Reset()
		<-peerOver
		seen := false
		for _, f := range frames {
			if seen {
				fail("after-disconnect", fmt.Sprintf("%v follows DISCONNECT on the wire", f))
			}
			seen = seen || f.Cmd == "DISCONNECT"
			if f.val("destination") == "/queue/late" {
				fail("late-frame", "a call after Disconnect put a frame on the wire")
			}
		}
		if derr == nil && !seen {
			fail("no-disconnect", "Disconnect succeeded although no DISCONNECT frame has been sent")
		}
		r.Count("short_disconnects", 1)
		r.Eval(fmt.Sprintf("short|%d|%v", len(frames), derr), true)
	})
}

// cliCrossing: the peer writes a long burst and reads nothing until it is through with it, while the application writes
// more than the network holds. Both must come to an end, and nothing may be lost or damaged.
func (r *R) cliCrossing(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		r.inClient(rng, func(w *srvWorld) {
			props := []string{"C09", "C12"}
			m := &cliModel{w: w, r: r, rng: rng, prof: wts("send", 1), rcvT: time.Hour, unsubT: time.Hour, discT: time.Hour}
			if !m.connect(stomp.ConnOpt.MsgSendTimeout(0)) {
				return
			}
			type sub struct {
				s    *stomp.Subscription
				ack  bool
				slow bool
				mu   sync.Mutex
				got  []string
				bad  string
			}
			var subs []*sub
			for k := 1 + rng.Intn(3); k > 0; k-- {
				x := &sub{ack: rng.Intn(3) == 0, slow: rng.Intn(3) == 0}
				mode := stomp.AckAuto
				if x.ack {
					mode = stomp.AckClientIndividual
					if m.version == "1.0" || rng.Intn(2) == 0 {
						mode = stomp.AckClient
					}
				}
				s, err := m.conn.Subscribe("/topic/x", mode)
				if err != nil {
					m.fail(props, "subscribe", err.Error(), nil)
					return
				}
				x.s = s
				subs = append(subs, x)
				go func() {
					for msg := range s.C {
						x.mu.Lock()
						if msg.Err != nil {
							x.bad = msg.Err.Error()
						} else {
							x.got = append(x.got, string(msg.Body))
						}
						x.mu.Unlock()
						if x.slow {
							time.Sleep(time.Millisecond)
						}
						if x.ack && msg.Err == nil {
							if err := m.conn.Ack(msg); err != nil {
								x.mu.Lock()
								x.bad = "Ack: " + err.Error()
								x.mu.Unlock()
							}
						}
					}
				}()
			}
			synctest.Wait()
			m.peer.take()
			m.peer.c.Pause(true)
			m.peer.c.SetInCap(1 + rng.Intn(2000))
			m.a.SetInCap(1 + rng.Intn(2000))
			// the application
			senders := 1 + rng.Intn(4)
			sent := make([][]string, senders)
			var mu sync.Mutex
			returned, errs := 0, ""
			for g := 0; g < senders; g++ {
				n := 10 + rng.Intn(30)
				size := 100 + rng.Intn(3000)
				for k := 0; k < n; k++ {
					sent[g] = append(sent[g], fmt.Sprintf("g%d-%d %s", g, k, strings.Repeat(string(rune('a'+k%26)), size)))
				}
				go func() {
					for _, b := range sent[g] {
						if err := m.conn.Send("/queue/out", "", []byte(b)); err != nil {
							mu.Lock()
							errs = err.Error()
							mu.Unlock()
							break
						}
					}
					mu.Lock()
					returned++
					mu.Unlock()
				}()
			}
			if rng.Intn(2) == 0 {
				synctest.Wait()
			}
			// the peer
			want := make([][]string, len(subs))
			var all []*F
			for k, n := 0, 60+rng.Intn(120); k < n; k++ {
				x := rng.Intn(len(subs))
				f := mk("MESSAGE", "destination", "/topic/x", "message-id", fmt.Sprint("m", k), "subscription", subs[x].s.Id())
				if m.version == "1.2" && subs[x].ack {
					f.H = append(f.H, [2]string{"ack", fmt.Sprint("a", k)})
				}
				f.Body = []byte(fmt.Sprintf("n%d %s", k, strings.Repeat("y", rng.Intn(800))))
				f.H = append(f.H, [2]string{"content-length", fmt.Sprint(len(f.Body))})
				want[x] = append(want[x], string(f.Body))
				all = append(all, f)
			}
			var through error
			over := false
			go func() { through = m.peer.send(all...); over = true }()
			time.Sleep(time.Second)
			synctest.Wait()
			if !over {
				m.fail(props, "crossing", "the client does not read while the peer does not: the peer cannot finish writing its messages, although the application reads from all subscriptions", stompStates())
			} else if through != nil {
				m.fail(props, "crossing-ended", "the connection has ended: "+through.Error(), nil)
			}
			mu.Lock()
			blocked := returned < senders
			mu.Unlock()
			m.peer.c.Pause(false)
			time.Sleep(10 * time.Second)
			synctest.Wait()
			if !m.failed {
				mu.Lock()
				if returned < senders || errs != "" {
					m.fail(props, "crossing-send", fmt.Sprintf("%d of %d goroutines are through with their sends, error %q; the peer reads", returned, senders, errs), stompStates())
				}
				mu.Unlock()
			}
			acks := 0
			for k, x := range subs {
				x.mu.Lock()
				if d := diffStrings(x.got, want[k]); (d != "" || x.bad != "") && !m.failed {
					m.fail([]string{"C12"}, "crossing-messages", fmt.Sprintf("subscription %s: %s %s", x.s.Id(), d, x.bad), nil)
				}
				if x.ack {
					acks += len(want[k])
				}
				x.mu.Unlock()
			}
			if p := m.peer.problems(); len(p) > 0 && !m.failed {
				m.fail([]string{"C09"}, "wire-malformed", "what the client wrote is not a sequence of frames: "+p[0], nil)
			}
			got := make([][]string, senders)
			gotAcks := 0
			for _, x := range m.peer.take() {
				switch x.F.Cmd {
				case "SEND":
					g := -1
					_, _ = fmt.Sscanf(string(x.F.Body), "g%d-", &g)
					if g < 0 || g >= senders {
						m.fail([]string{"C09"}, "crossing-wire", "a frame nobody sent: "+x.F.String(), nil)
						break
					}
					got[g] = append(got[g], string(x.F.Body))
				case "ACK":
					gotAcks++
				default:
					m.fail([]string{"C09"}, "crossing-wire", "a frame nobody sent: "+x.F.String(), nil)
				}
			}
			for g := range got {
				if d := diffStrings(got[g], sent[g]); d != "" && !m.failed {
					m.fail([]string{"C09"}, "crossing-wire", fmt.Sprintf("frames of goroutine %d at the peer: %s", g, d), nil)
				}
			}
			if gotAcks != acks && !m.failed {
				m.fail([]string{"C09", "C13"}, "crossing-acks", fmt.Sprintf("%d ACK frames at the peer, the application acknowledged %d messages", gotAcks, acks), nil)
			}
			r.Count("crossings", 1)
			if blocked {
				r.Count("crossings_blocked", 1)
			}
			r.Count("crossing_messages", len(all))
			r.Eval(fmt.Sprintf("crossing|%d|%d|%d", len(all), senders, acks), blocked)
			_ = m.conn.MustDisconnect()
			m.peer.c.Reset()
			_ = m.a.Close()
			time.Sleep(time.Minute)
			synctest.Wait()
			if n := libGoroutines(); n != w.base && !m.failed {
				m.fail([]string{"C16"}, "goroutines-left", fmt.Sprintf("%d goroutines of the library are left after the connection has ended", n-w.base), stompStates())
			}
		})
	})
}

// diffStrings compares two lists; "" if equal.
func diffStrings(got, want []string) string {
	short := func(s string) string {
		if len(s) > 20 {
			s = s[:20] + "..."
		}
		return s
	}
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%d of %d are there, %q is missing", len(got), len(want), short(want[i]))
		}
		if got[i] != want[i] {
			return fmt.Sprintf("number %d is %q, expected %q", i, short(got[i]), short(want[i]))
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%q is too many", short(got[len(want)]))
	}
	return ""
}

// cliAbandoned: subscriptions nobody reads from any more are given up: their UNSUBSCRIBE is not confirmed in time. What
// the peer still sends for them must not hold up anything else.
func (r *R) cliAbandoned(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		r.inClient(rng, func(w *srvWorld) {
			props := []string{"C11", "C12", "C15"}
			m := &cliModel{w: w, r: r, rng: rng, prof: wts("send", 1), rcvT: time.Hour, discT: time.Hour}
			m.unsubT = time.Duration(1+rng.Intn(3000)) * time.Millisecond
			if !m.connect() {
				return
			}
			type sub struct {
				s    *stomp.Subscription
				sent []string
				err  error
				at   time.Duration
				done bool
			}
			subscribe := func() *sub {
				s, err := m.conn.Subscribe("/topic/x", stomp.AckAuto)
				if err != nil {
					m.fail(props, "subscribe", err.Error(), nil)
					return nil
				}
				return &sub{s: s}
			}
			nTag := 0
			push := func(x *sub, n int) {
				var l []*F
				for ; n > 0; n-- {
					nTag++
					f := mk("MESSAGE", "destination", "/topic/x", "message-id", fmt.Sprint("m", nTag), "subscription", x.s.Id())
					f.Body = []byte(fmt.Sprint("n", nTag))
					x.sent = append(x.sent, string(f.Body))
					l = append(l, f)
				}
				_ = m.peer.send(l...)
			}
			healthy := subscribe()
			var mu sync.Mutex
			var got []string
			if healthy == nil {
				return
			}
			go func() {
				for msg := range healthy.s.C {
					if msg.Err == nil {
						mu.Lock()
						got = append(got, string(msg.Body))
						mu.Unlock()
					}
				}
			}()
			var gone []*sub
			for k := 1 + rng.Intn(3); k > 0; k-- {
				x := subscribe()
				if x == nil {
					return
				}
				gone = append(gone, x)
			}
			synctest.Wait()
			m.peer.take()
			full := false
			for _, x := range gone {
				n := []int{0, rng.Intn(16), 16, 17, 16 + rng.Intn(40)}[rng.Intn(5)]
				if full && n > 16 {
					n = 16 // one of them holds up the others already
				}
				full = full || n > 16
				push(x, n)
				if rng.Intn(2) == 0 {
					synctest.Wait()
				}
			}
			synctest.Wait()
			before := make([]int, len(gone))
			for k, x := range gone {
				before[k] = len(x.sent)
			}
			start := w.now()
			for _, x := range gone {
				go func() {
					x.err = x.s.Unsubscribe()
					x.at, x.done = w.now(), true
				}()
			}
			synctest.Wait()
			var receipts []string
			for _, f := range m.peer.take() {
				if id, ok := f.F.get("receipt"); ok {
					receipts = append(receipts, id)
				}
			}
			if rng.Intn(2) == 0 {
				push(gone[rng.Intn(len(gone))], 1+rng.Intn(30))
			}
			time.Sleep(m.unsubT)
			synctest.Wait()
			for _, x := range gone {
				if !x.done || x.at != start+m.unsubT || x.err == nil || x.err.Error() != stomp.ErrUnsubscribeReceiptTimeout.Error() {
					m.fail(props, "abandon-result", fmt.Sprintf("Unsubscribe of %s: done %v, %v after %v; its timeout is %v and no RECEIPT has come", x.s.Id(), x.done, x.err, x.at-start, m.unsubT), nil)
					return
				}
			}
			// the rest of the connection goes on
			for k, n := 0, 2+rng.Intn(8); k < n && !m.failed; k++ {
				x := gone[rng.Intn(len(gone))]
				push(x, 1+rng.Intn(60))
				push(healthy, 1+rng.Intn(5))
				if len(receipts) > 0 && rng.Intn(4) == 0 {
					_ = m.peer.send(mk("RECEIPT", "receipt-id", receipts[0])) // late
					receipts = receipts[1:]
				}
				var err error
				done := false
				go func() { err = m.conn.Send("/queue/a", "", nil, stomp.SendOpt.Receipt); done = true }()
				synctest.Wait()
				for _, f := range m.peer.take() {
					if id, ok := f.F.get("receipt"); ok && f.F.Cmd == "SEND" {
						_ = m.peer.send(mk("RECEIPT", "receipt-id", id))
					}
				}
				synctest.Wait()
				if !done || err != nil {
					m.fail(props, "abandoned-blocks", fmt.Sprintf("a send with receipt does not succeed although its RECEIPT has been sent: done %v, %v; %d subscriptions nobody reads from have been given up", done, err, len(gone)), stompStates())
				}
				mu.Lock()
				if d := diffStrings(got, healthy.sent); d != "" {
					m.fail(props, "abandoned-blocks", "a subscription that is read from, while others have been given up: "+d, stompStates())
				}
				mu.Unlock()
			}
			// what had been received before is still there, the last thing says that the unsubscribe was not confirmed
			for k, x := range gone {
				if m.failed {
					break
				}
				var l []string
				last := ""
				over := make(chan struct{})
				go func() {
					defer close(over)
					for msg := range x.s.C {
						switch {
						case last != "":
							last += " and more"
						case msg.Err != nil:
							last = msg.Err.Error()
						default:
							l = append(l, string(msg.Body))
						}
					}
				}()
				synctest.Wait()
				select {
				case <-over:
				default:
					m.fail(props, "abandoned-open", fmt.Sprintf("the channel of %s is not closed after the unsubscribe has timed out and everything in it has been read", x.s.Id()), stompStates())
					continue
				}
				if min := before[k]; !full {
					if len(l) < min {
						m.fail(props, "abandoned-lost", fmt.Sprintf("%s: %d messages were received before Unsubscribe was called, %d came out", x.s.Id(), min, len(l)), nil)
					}
				}
				if len(l) > len(x.sent) || diffStrings(l, x.sent[:len(l)]) != "" {
					m.fail(props, "abandoned-order", fmt.Sprintf("%s delivered %v, it was sent %v", x.s.Id(), tail(l, 30), tail(x.sent, 30)), nil)
				}
				if last == "" || strings.HasSuffix(last, "and more") {
					m.fail(props, "abandoned-end", fmt.Sprintf("the last thing on the channel of %s is %q, expected an error", x.s.Id(), last), nil)
				}
			}
			r.Count("abandoned", len(gone))
			r.Eval(fmt.Sprintf("abandoned|%d|%v|%v", len(gone), full, before), true)
			_ = m.conn.MustDisconnect()
			m.peer.c.Reset()
			_ = m.a.Close()
			time.Sleep(time.Minute)
			synctest.Wait()
			if n := libGoroutines(); n != w.base && !m.failed {
				m.fail(props, "goroutines-left", fmt.Sprintf("%d goroutines of the library are left after the connection has ended", n-w.base), stompStates())
			}
		})
	})
}
