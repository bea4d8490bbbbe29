package harness

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"sync"
	"testing/synctest"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
)

func init() { register("C18", checkC18) }

func checkC18(r *R) {
	r.Rule("Each case is one connection in virtual time with generated heart-beat values, allowance and multiplier, under generated traffic and silence in both " +
		"directions. Every transmission of the client is recorded with its time; the time at which silence must end the connection comes from the " +
		"negotiated values and the time of the last byte received. Distinct: class of values and sequence of steps.")
	r.Assume("the peer takes what the client writes at once")
	r.Assume("the grace multiplier is positive, the allowance is not negative")
	r.stallMonitor()
	r.clientBeats("beats", r.N(6000, 120000), false)
	r.clientBeats("stalled-consumer", r.N(1500, 30000), true)
	r.cliStepwise("no-beats", r.N(400, 8000), cliProf("time", 6, "txend", 5))
	r.Require("gaps_checked", 50000)
	r.Require("silences_ended", 800)
	r.Require("silences_survived", 5000)
	r.Require("beats", 20000)
	r.Require("never_for_silence", 500)
}

type beatCase struct {
	a, b    int64 // offered by the peer, wanted by the client, ms
	bSub    time.Duration
	n       int64 // wanted by the peer, ms
	send    time.Duration
	errT    time.Duration
	mult    float64
	silence time.Duration // ends the connection (0: never)
	every   time.Duration // how often the client will have to write, roughly
}

func randBeats(rng *rand.Rand) beatCase {
	for {
		c := beatCase{errT: stomp.DefaultHeartBeatError, mult: 1}
		v := func() int64 {
			switch rng.Intn(6) {
			case 0, 1:
				return 0
			case 2:
				return 1 + rng.Int63n(20)
			case 3:
				return 1 + rng.Int63n(1000)
			default:
				return 1 + rng.Int63n(100000)
			}
		}
		c.a, c.b, c.n = v(), v(), v()
		c.send = time.Duration(v()) * time.Millisecond
		switch rng.Intn(12) {
		case 0:
			c.a, c.n = 9223372036854, 0
		case 1:
			c.n = 9223372036854
		case 2:
			c.bSub = time.Duration(rng.Intn(1000)) * time.Microsecond
		}
		switch rng.Intn(6) {
		case 0:
			c.errT = 0
		case 1:
			c.errT = time.Duration(rng.Intn(50)) * time.Millisecond
		case 2:
			c.errT = time.Duration(rng.Intn(100000)) * time.Millisecond
		case 3:
			if c.n > 0 && c.n < 1000000 {
				c.errT = time.Duration(c.n) * time.Millisecond
				if rng.Intn(2) == 0 {
					c.errT += time.Duration(rng.Intn(3)-1) * time.Millisecond
				}
			}
		}
		switch rng.Intn(4) {
		case 0:
			c.mult = 0.25 + rng.Float64()*4
		case 1:
			c.mult = []float64{0.5, 1.5, 2, 3, 10, 1000000}[rng.Intn(6)]
		}
		read := time.Duration(c.b)*time.Millisecond + c.bSub
		if c.a > 0 && read >= time.Millisecond {
			m := max(float64(c.a)*1e6, float64(read))
			s := (m + float64(c.errT)) * c.mult
			if s < 9e18 {
				c.silence = time.Duration(s)
			}
			if c.silence > 1000*time.Hour {
				c.silence = 0 // far away
			}
		}
		c.every = time.Duration(c.n) * time.Millisecond
		if c.n > 9e12 {
			c.every = 0
		}
		if c.every > c.errT {
			c.every -= c.errT
		}
		if c.every > 0 && c.silence > 1500*c.every {
			continue // too many heart-beats to wait for
		}
		return c
	}
}

func (r *R) clientBeats(label string, n int, stalled bool) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		r.inClient(rng, func(w *srvWorld) { r.beatHistory(rng, w, stalled, i) })
	})
}

func (r *R) beatHistory(rng *rand.Rand, w *srvWorld, stalled bool, caseNo int) {
	bc := randBeats(rng)
	if stalled {
		for bc.silence == 0 || bc.n > 9e12 {
			bc = randBeats(rng)
		}
	}
	a, b := memPipe()
	peer := &rawClient{w: w, name: "peer", c: b, srv: a, overCh: make(chan struct{})}
	var log []string
	sig := fmt.Sprintf("%v|%v|%v|%v|%v|", bc.a > 0, bc.b > 0, bc.n > 0, bc.mult, bc.errT > time.Duration(bc.n)*time.Millisecond)
	failed := false
	fail := func(key, what string) {
		if !failed {
			failed = true
			r.Fail(key, what, map[string]any{"values": fmt.Sprintf("%+v", bc), "history": tail(log, 60), "goroutines": stompStates()})
		}
	}
	logf := func(f string, x ...any) {
		if len(log) < 400 {
			log = append(log, fmt.Sprintf("%v ", w.now())+fmt.Sprintf(f, x...))
		}
	}
	type tx struct {
		at   time.Duration
		beat bool
	}
	var mu sync.Mutex
	var txs []tx
	closedAt := time.Duration(-1)
	a.beforeWrite = func(p []byte) {
		mu.Lock()
		txs = append(txs, tx{w.now(), len(p) == 1 && p[0] == '\n'})
		mu.Unlock()
	}
	a.onClose = func() {
		mu.Lock()
		closedAt = w.now()
		mu.Unlock()
	}
	if rng.Intn(3) == 0 {
		a.Fragment(randChunk(rng.Int63()))
	}
	go peer.read()
	opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nopLog{}), stomp.ConnOpt.HeartBeat(bc.send, time.Duration(bc.b)*time.Millisecond+bc.bSub),
		stomp.ConnOpt.RcvReceiptTimeout(0), stomp.ConnOpt.DisconnectReceiptTimeout(0), stomp.ConnOpt.UnsubscribeReceiptTimeout(0)}
	if bc.errT != stomp.DefaultHeartBeatError {
		opts = append(opts, stomp.ConnOpt.HeartBeatError(bc.errT))
	}
	if bc.mult != 1 {
		opts = append(opts, stomp.ConnOpt.HeartBeatGracePeriodMultiplier(bc.mult))
	}
	rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	if stalled || rng.Intn(3) == 0 {
		opts = append(opts, stomp.ConnOpt.ReadChannelCapacity(1+rng.Intn(4)))
	}
	if rng.Intn(2) == 0 {
		opts = append(opts, stomp.ConnOpt.WithStats())
	}
	var conn *stomp.Conn
	var cerr error
	go func() { conn, cerr = stomp.Connect(a, opts...) }()
	synctest.Wait()
	if rng.Intn(3) == 0 {
		time.Sleep(time.Duration(rng.Intn(200)) * time.Second) // the answer may take its time
	}
	cf := mk("CONNECTED", "version", []string{"1.1", "1.2"}[rng.Intn(2)])
	if bc.a > 0 || bc.n > 0 || rng.Intn(2) == 0 {
		cf.H = append(cf.H, [2]string{"heart-beat", fmt.Sprintf("%d,%d", bc.a, bc.n)})
	}
	_ = peer.send(cf)
	synctest.Wait()
	if conn == nil {
		fail("connect", fmt.Sprintf("a valid CONNECTED was refused: %v", cerr))
		b.Reset()
		return
	}
	connected := w.now()
	lastIn := connected
	peer.take()

	// subscriptions
	type bsub struct {
		s    *stomp.Subscription
		got  []*stomp.Message
		end  bool
		hold chan struct{} // nil: reads at once
	}
	var subs []*bsub
	subscribe := func(hold bool, opts ...func(*frame.Frame) error) *bsub {
		s, err := conn.Subscribe("/queue/a", stomp.AckAuto, opts...)
		if err != nil {
			return nil
		}
		x := &bsub{s: s}
		if hold {
			x.hold = make(chan struct{})
		}
		subs = append(subs, x)
		go func() {
			if x.hold != nil {
				<-x.hold
			}
			for m := range s.C {
				mu.Lock()
				x.got = append(x.got, m)
				mu.Unlock()
			}
			mu.Lock()
			x.end = true
			mu.Unlock()
		}()
		return x
	}
	first := subscribe(stalled)
	synctest.Wait()
	if first == nil {
		mu.Lock()
		if closedAt < 0 {
			fail("subscribe", "subscribing right after connecting failed")
		}
		mu.Unlock()
	}
	closed := func() bool { mu.Lock(); defer mu.Unlock(); return closedAt >= 0 }
	var pending []byte // rest of a frame the peer is sending
	var waiting []string
	msgs := 0
	outstanding := 0 // messages the stalled subscription has not taken
	disconnecting := time.Duration(-1)
	ended := false
	tol := time.Duration(2000)
	if bc.silence > 0 {
		tol += time.Duration(float64(bc.silence) * 1e-12)
	}
	exact := func() bool { return !stalled || outstanding == 0 }
	// when the stalled consumer began to read; data that had been received before may only have been taken then
	resumed := time.Duration(-1)
	latest := func() time.Duration {
		if lastIn < resumed {
			return resumed + 2*bc.silence
		}
		return lastIn + bc.silence
	}
	// looks whether the connection is open exactly if it must be
	judge := func() {
		synctest.Wait()
		if failed || ended {
			return
		}
		mu.Lock()
		at := closedAt
		mu.Unlock()
		if bc.silence == 0 {
			if at >= 0 {
				fail("closed-for-silence", fmt.Sprintf("the connection was closed at %v although no read timeout was agreed (peer offers %d ms, client wants %v)", at, bc.a, time.Duration(bc.b)*time.Millisecond+bc.bSub))
			}
			return
		}
		e := lastIn + bc.silence
		switch {
		case at >= 0 && at < e-tol:
			fail("closed-early", fmt.Sprintf("the connection was closed at %v, the last data came at %v: after a silence of %v, allowed are %v", at, lastIn, at-lastIn, bc.silence))
		case at >= 0 && at > latest()+tol && exact():
			fail("closed-late", fmt.Sprintf("the connection was closed at %v, the last data came at %v: after a silence of %v, allowed are %v", at, lastIn, at-lastIn, bc.silence))
		case at < 0 && w.now() > latest()+tol && exact():
			fail("not-closed", fmt.Sprintf("the connection is open at %v, the last data came at %v: a silence of %v, allowed are %v", w.now(), lastIn, w.now()-lastIn, bc.silence))
		case at >= 0:
			ended = true
			r.Count("silences_ended", 1)
			logf("closed at %v", at)
		}
	}
	sleep := func(d time.Duration) {
		if d <= 0 {
			return
		}
		if bc.every > 0 && d > 1600*bc.every {
			d = 1600 * bc.every
		}
		if bc.silence > 0 { // stay away from the moment itself
			e := lastIn + bc.silence
			if x := w.now() + d - e; x >= -2*tol && x <= 2*tol {
				d += 5 * tol
			}
		}
		time.Sleep(d)
	}
	input := func(bs []byte) {
		if len(bs) == 0 {
			return
		}
		_ = peer.raw(bs)
		synctest.Wait()
		if !closed() {
			lastIn = w.now()
		}
	}
	if stalled && first != nil && !closed() {
		var burst []byte
		for k := rng.Intn(45); k > 0; k-- {
			msgs++
			outstanding++
			burst = append(burst, mk("MESSAGE", "subscription", first.s.Id(), "message-id", strconv.Itoa(msgs), "destination", "/queue/a").enc()...)
		}
		input(burst)
		if outstanding > 30 {
			r.Count("blocked_readers", 1)
		}
	}
	steps := 8 + rng.Intn(40)
	for k := 0; k < steps && !failed && !ended; k++ {
		judge()
		if failed || ended {
			break
		}
		kind := pickW(rng, map[string]int{"sleep": 10, "near": 6, "over": 1, "peer": 8, "send": 5, "sendr": 2, "sub": 1, "reply": 2, "unreply": 2, "unsub": 1, "tx": 1, "disc": 0})
		if disconnecting >= 0 && kind != "sleep" && kind != "near" && kind != "over" && kind != "peer" {
			kind = "sleep"
		}
		sig += kind[:2]
		switch kind {
		case "sleep":
			unit := bc.every
			if bc.silence > 0 && (unit == 0 || rng.Intn(2) == 0) {
				unit = bc.silence
			}
			if unit == 0 {
				unit = time.Duration(1+rng.Intn(3600)) * time.Second
			}
			d := time.Duration(rng.Float64() * 0.9 * float64(unit))
			if bc.silence > 0 && rng.Intn(8) > 0 {
				if left := lastIn + bc.silence - w.now(); d >= left {
					d = left / 2
				}
			}
			logf("sleep %v", d)
			sleep(d)
		case "near": // almost the longest silence allowed, then something arrives
			if bc.silence == 0 {
				sleep(time.Duration(1+rng.Intn(100)) * time.Minute)
				if bc.b == 0 || bc.a == 0 {
					r.Count("never_for_silence", 1)
				}
				break
			}
			d := lastIn + bc.silence - w.now() - time.Duration(1+rng.Intn(3))*time.Millisecond - 4*tol
			if d <= 0 {
				break
			}
			logf("near sleep %v", d)
			before := w.now()
			sleep(d)
			judge()
			if !failed && !ended {
				r.Count("silences_survived", 1)
			}
			_ = before
			if rng.Intn(6) > 0 && !ended {
				if len(pending) > 0 {
					input(pending[:1])
					pending = pending[1:]
				} else {
					input([]byte{'\n'})
				}
			}
		case "over":
			if bc.silence == 0 || !exact() {
				break
			}
			logf("silence")
			sleep(latest() - w.now() + time.Duration(1+rng.Intn(5000))*time.Millisecond + 6*tol)
			if bc.every > 0 && w.now() < lastIn+bc.silence+tol {
				break // shortened
			}
		case "peer":
			if len(pending) == 0 {
				switch rng.Intn(3) {
				case 0:
					pending = []byte([]string{"\n", "\r\n"}[rng.Intn(2)])
				case 1:
					if len(waiting) > 0 {
						pending = mk("RECEIPT", "receipt-id", waiting[0]).enc()
						waiting = waiting[1:]
						break
					}
					fallthrough
				default:
					if first == nil {
						pending = []byte("\n")
						break
					}
					msgs++
					pending = mk("MESSAGE", "subscription", first.s.Id(), "message-id", strconv.Itoa(msgs), "destination", "/queue/a").with(randBody(rng, rng.Intn(100), false)).enc()
					if stalled {
						outstanding++
					}
				}
			}
			n := len(pending)
			if rng.Intn(2) == 0 {
				n = 1 + rng.Intn(n)
			}
			logf("peer sends %d of %d bytes", n, len(pending))
			input(pending[:n])
			pending = pending[n:]
		case "send":
			logf("send")
			_ = conn.Send("/queue/a", "", randBody(rng, rng.Intn(50), true))
		case "sendr":
			logf("send with receipt")
			go func() { _ = conn.Send("/queue/a", "", nil, stomp.SendOpt.Receipt) }()
		case "sub":
			logf("subscribe")
			subscribe(false)
		case "reply":
			logf("subscribe to a reply queue")
			subscribe(false, stomp.SubscribeOpt.Header(stomp.ReplyToHeader, fmt.Sprintf("/temp-queue/%d", k)))
		case "unreply", "unsub":
			for _, s := range subs {
				if s == first || !s.s.Active() || rng.Intn(2) == 0 {
					continue
				}
				logf("unsubscribe %s", s.s.Id())
				go func() { _ = s.s.Unsubscribe() }()
				break
			}
		case "tx":
			logf("begin")
			if t, err := conn.BeginWithError(); err == nil {
				_ = t.Send("/queue/a", "", nil)
				_ = t.Abort()
			}
		}
		synctest.Wait()
		for _, f := range peer.take() {
			if id, ok := f.F.get("receipt"); ok {
				waiting = append(waiting, id)
			}
		}
		judge()
		if stalled && rng.Intn(25) == 0 && first != nil {
			select {
			case <-first.hold:
			default:
				logf("the consumer reads")
				close(first.hold)
				synctest.Wait()
				resumed = w.now()
				outstanding = 0
				stalled = false
			}
		}
	}
	if !ended && !failed && rng.Intn(3) == 0 && disconnecting < 0 && !stalled {
		// a graceful end: no heart-beat after it
		disconnecting = w.now()
		go func() { _ = conn.Disconnect() }()
		synctest.Wait()
		if bc.silence > 0 && rng.Intn(2) == 0 {
			sleep(lastIn + bc.silence - w.now() + 10*tol)
		} else {
			sleep(time.Duration(rng.Intn(100)) * time.Second)
		}
		judge()
	}
	synctest.Wait()
	end := w.now()
	mu.Lock()
	if closedAt >= 0 {
		end = closedAt
	}
	// what the client transmitted
	last := connected
	limit := time.Duration(bc.n) * time.Millisecond
	if limit > bc.errT {
		limit -= bc.errT // the transmission takes its time, too
	}
	if bc.n > 9e12 {
		limit = math.MaxInt64
	}
	beats := 0
	for _, t := range append(append([]tx{}, txs[1:]...), tx{at: end}) {
		if t.beat {
			beats++
			if bc.n == 0 && !failed {
				fail("unwanted-beat", fmt.Sprintf("a heart-beat was sent at %v although the peer wants none", t.at))
			}
			if disconnecting >= 0 && t.at > disconnecting && !failed {
				fail("beat-after-disconnect", fmt.Sprintf("a heart-beat was sent at %v after DISCONNECT at %v", t.at, disconnecting))
			}
		}
		if disconnecting >= 0 && t.at > disconnecting {
			t.at = disconnecting
		}
		if bc.n > 0 && !failed && t.at-last > limit {
			fail("gap", fmt.Sprintf("nothing was sent between %v and %v, for %v; the peer wants something every %d ms, the heart-beat error is %v", last, t.at, t.at-last, bc.n, bc.errT))
		}
		last = t.at
		if bc.n > 0 {
			r.Count("gaps_checked", 1)
		}
	}
	r.Count("beats", beats)
	mu.Unlock()
	if ended && !failed {
		if first != nil && first.hold != nil && stalled {
			close(first.hold)
		}
		synctest.Wait()
		time.Sleep(time.Millisecond)
		synctest.Wait()
		mu.Lock()
		for _, s := range subs {
			var lastMsg *stomp.Message
			if len(s.got) > 0 {
				lastMsg = s.got[len(s.got)-1]
			}
			switch {
			case !s.end:
				fail("subscription-left", "a subscription does not end with the read timeout: "+s.s.Id())
			case s == first && (lastMsg == nil || lastMsg.Err == nil || lastMsg.Err.Error() != "read timeout"):
				fail("no-error", fmt.Sprintf("the subscription ended without the read timeout error: last message %v", lastMsg))
			}
		}
		mu.Unlock()
	}
	if first != nil && first.hold != nil {
		select {
		case <-first.hold:
		default:
			close(first.hold)
		}
	}
	_ = conn.MustDisconnect()
	b.Reset()
	synctest.Wait()
	time.Sleep(time.Minute)
	synctest.Wait()
	r.Count("beat_histories", 1)
	r.Eval(sig+fmt.Sprint(ended), bc.n > 0 || bc.silence > 0)
	if caseNo < 3 {
		r.Sample("heart-beats", map[string]any{"values": fmt.Sprintf("%+v", bc), "history": tail(log, 20)})
	}
}
