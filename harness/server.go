package harness

import (
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server/queue"
)

func init() {
	register("C21", checkC21)
	register("C22", checkC22)
	register("C23", checkC23)
	register("C24", checkC24)
	register("C25", checkC25)
	register("C26", checkC26)
	register("C27", checkC27)
	register("C28", checkC28)
	register("C29", checkC29)
	register("C30", checkC30)
	register("C31", checkC31)
	register("C33", checkC33)
	register("C34", checkC34)
}

const (
	ruleModel = "a history counts when at least one message was delivered in it; distinct by the sequence of frame kinds and destinations"
	ruleChaos = "; a concurrent run counts when at least one message was delivered, distinct by who received which messages in which order"
)

func (r *R) serverAssume() {
	r.stallMonitor()
	r.Assume("clients are sockets in memory driven by the harness; time is virtual (testing/synctest), goroutine scheduling is Go's own plus injected delays")
	r.Assume("the queue storage reports no errors")
}

func checkC22(r *R) {
	r.Rule(ruleModel + ruleChaos)
	r.serverAssume()
	r.stepwise("topic", r.N(1500, 40000), profTopic, srvOpt{})
	r.stepwise("topic-jitter", r.N(300, 8000), profTopic, srvOpt{jitter: 40})
	r.chaosCases("topic-chaos", r.N(500, 12000), chaosTopic)
	r.longLives("long", "messages", r.N(2, 8))
	r.Require("topic_deliveries_checked", 20000)
	r.Require("topic_windows_checked", 2000)
}

func checkC23(r *R) {
	r.Rule(ruleModel + ruleChaos)
	r.serverAssume()
	r.stepwise("queue", r.N(1500, 40000), profQueue, srvOpt{})
	r.stepwise("queue-jitter", r.N(300, 8000), profQueue, srvOpt{jitter: 40})
	r.chaosCases("queue-chaos", r.N(600, 12000), chaosQueue)
	r.longLives("long", "messages", r.N(2, 8))
	r.Require("queue_deliveries_checked", 20000)
	r.Require("chaos_deliveries", 20000)
}

func checkC24(r *R) {
	r.Rule(ruleModel + ruleChaos)
	r.serverAssume()
	r.stepwise("ack", r.N(2500, 60000), profAck, srvOpt{})
	r.stepwise("ack-jitter", r.N(500, 10000), profAck, srvOpt{jitter: 40})
	r.chaosCases("ack-chaos", r.N(700, 15000), chaosAck)
	r.Cases("stalled", r.N(3000, 60000), func(i int, rng *rand.Rand) {
		r.inServer(rng, srvOpt{jitter: pickI(rng, 0, 0, 0, 30)}, func(w *srvWorld) { r.stalledConsumer(rng, w) })
	})
	r.longLives("long", "acks", r.N(2, 8))
	r.Require("taken_but_not_written", 1000)
	r.Require("queue_deliveries_checked", 20000)
	r.Require("redeliveries", 500)
	r.Require("op_ack", 1000)
	r.Require("op_nack", 500)
}

func checkC25(r *R) {
	r.Rule(ruleModel + ruleChaos)
	r.serverAssume()
	r.stepwise("tx", r.N(2500, 60000), profTx, srvOpt{})
	r.stepwise("tx-jitter", r.N(500, 10000), profTx, srvOpt{jitter: 40})
	r.chaosCases("tx-chaos", r.N(500, 12000), chaosTx)
	r.longLives("long", "transactions", r.N(2, 8))
	r.longLives("long-acks", "ack-tx", r.N(2, 8))
	r.Require("op_commit", 1000)
	r.Require("op_abort", 1000)
	r.Require("chaos_transactions_committed", 500)
}

func checkC26(r *R) {
	r.Rule(ruleModel + ruleChaos)
	r.serverAssume()
	r.stepwise("receipt", r.N(2500, 60000), profReceipt, srvOpt{})
	r.stepwise("receipt-jitter", r.N(500, 10000), profReceipt, srvOpt{jitter: 40})
	r.chaosCases("receipt-chaos", r.N(300, 8000), func(rng *rand.Rand) *chaosCfg {
		c := chaosAny(rng)
		c.rcptPct = pickI(rng, 30, 70, 100)
		return c
	})
	r.longLives("long", "receipts", r.N(2, 8))
	r.Require("receipts_checked", 20000)
	r.Require("errors_checked", 500)
}

func checkC27(r *R) {
	r.Rule(ruleModel + ruleChaos)
	r.serverAssume()
	r.stepwise("hostile", r.N(1500, 40000), profHostile, srvOpt{})
	r.stepwise("hostile-jitter", r.N(300, 6000), profHostile, srvOpt{jitter: 40})
	r.chaosCases("hostile-chaos", r.N(300, 8000), func(rng *rand.Rand) *chaosCfg {
		c := chaosAny(rng)
		c.hostile = 1 + rng.Intn(5)
		return c
	})
	r.announcedBodies(r.N(12, 200))
	r.Require("op_malformed", 1000)
	r.Require("op_invalid", 1000)
}

func checkC33(r *R) {
	r.Rule(ruleModel)
	r.serverAssume()
	r.stepwise("content", r.N(900, 25000), profContent, srvOpt{})
	r.stepwise("content-jitter", r.N(200, 5000), profContent, srvOpt{jitter: 40})
	r.longLives("long", "messages", r.N(2, 8))
	r.Require("messages_delivered", 10000)
}

func checkC34(r *R) {
	r.Rule(ruleModel + ruleChaos)
	r.serverAssume()
	r.stepwise("subs", r.N(2500, 60000), profSubs, srvOpt{})
	r.stepwise("subs-jitter", r.N(500, 10000), profSubs, srvOpt{jitter: 40})
	r.chaosCases("subs-chaos", r.N(500, 12000), func(rng *rand.Rand) *chaosCfg {
		c := chaosAck(rng)
		c.topics = tNames[:1+rng.Intn(2)]
		c.unsubPct = pickI(rng, 10, 30, 60)
		c.holdPct, c.kills = 0, 0
		c.jitter = pickI(rng, 0, 30, 100)
		return c
	})
	r.longLives("long", "subscriptions", r.N(2, 8))
	r.Require("op_unsubscribe", 3000)
}

func checkC28(r *R) {
	r.Rule("a concurrent run counts when at least one message was delivered, distinct by who received which messages in which order")
	r.serverAssume()
	r.Assume("a client that neither reads nor disconnects is outside the property")
	r.chaosCases("flood", r.N(150, 6000), func(rng *rand.Rand) *chaosCfg {
		c := chaosFlood(rng)
		c.stallers = pickI(rng, 0, 0, 1, 4)
		c.selfSub = rng.Intn(3) == 0
		c.hostile = pickI(rng, 0, 0, 2)
		return c
	})
	r.chaosCases("vanish", r.N(250, 6000), func(rng *rand.Rand) *chaosCfg {
		// many subscribers of few destinations that all vanish while messages pour in
		c := chaosFlood(rng)
		c.queues, c.topics = qNames[:1], tNames[:1]
		c.producers, c.perProducer, c.batch, c.bodyMax = 1+rng.Intn(3), 150, pickI(rng, 1, 150), 0
		c.consumers, c.subsPer, c.kills = 5+rng.Intn(30), 1+rng.Intn(2), 40
		c.jitter = pickI(rng, 0, 0, 0, 20)
		return c
	})
	r.chaosCases("many-subs", r.N(150, 4000), func(rng *rand.Rand) *chaosCfg {
		// few consumers with more subscriptions each than the server has room for in its channels
		c := chaosFlood(rng)
		c.queues, c.topics = qNames[:1+rng.Intn(2)], tNames[:1+rng.Intn(2)]
		c.producers, c.perProducer, c.batch, c.bodyMax = 1+rng.Intn(4), 150, pickI(rng, 1, 150), pickI(rng, 0, 0, 3000)
		c.consumers, c.subsPer, c.kills = 1+rng.Intn(4), 18+rng.Intn(40), pickI(rng, 0, 3, 10)
		c.jitter = pickI(rng, 0, 0, 0, 20)
		c.selfSub = rng.Intn(2) == 0
		return c
	})
	r.stepwise("any", r.N(300, 10000), profAny, srvOpt{})
	r.Require("chaos_deliveries", 50000)
	r.Require("chaos_connections_ended", 1000)
}

func checkC30(r *R) {
	r.Rule(ruleModel + ruleChaos)
	r.serverAssume()
	o := srvOpt{leftovers: true}
	r.stepwise("ends", r.N(800, 20000), func(rng *rand.Rand) *profile {
		p := profHostile(rng)
		p.weights["disconnect"] = 10
		return p
	}, o)
	o.jitter = 40
	r.stepwise("ends-jitter", r.N(200, 5000), profHostile, o)
	r.chaosCases("ends-chaos", r.N(300, 8000), func(rng *rand.Rand) *chaosCfg {
		c := chaosAck(rng)
		c.topics = tNames[:1+rng.Intn(2)]
		c.endPct, c.lives, c.kills = pickI(rng, 3, 10), 4, pickI(rng, 0, 10)
		c.stallers, c.hostile = pickI(rng, 0, 1, 3), pickI(rng, 0, 2)
		return c
	})
	r.endStates(r.N(400, 10000))
	r.Require("leftover_checks", 500)
}

func checkC31(r *R) {
	r.Rule(ruleModel + ruleChaos + "; for the built-in storage a sequence counts when it dequeued a frame")
	r.serverAssume()
	r.stepwise("store", r.N(1200, 30000), profStore, srvOpt{recorded: true})
	r.stepwise("store-jitter", r.N(300, 6000), profStore, srvOpt{recorded: true, jitter: 40})
	r.chaosCases("store-chaos", r.N(300, 8000), func(rng *rand.Rand) *chaosCfg {
		c := chaosAck(rng)
		c.store = true
		return c
	})
	r.memoryStorage(r.N(3000, 100000))
	r.Require("storage_states_checked", 10000)
	r.Require("stored_messages_checked", 10000)
}

// memoryStorage compares the built-in storage with lists.
func (r *R) memoryStorage(n int) {
	r.Cases("memory", n, func(i int, rng *rand.Rand) {
		s := queue.NewMemoryQueueStorage()
		s.Start()
		m := map[string][]*frame.Frame{}
		names := []string{"/queue/a", "/queue/b", "/queue/a/", "", "/queue/long/name with space"}[:1+rng.Intn(5)]
		if rng.Intn(5) == 0 {
			for j := 5 + rng.Intn(40); j > 0; j-- {
				names = append(names, fmt.Sprintf("/queue/n%d", j))
			}
		}
		got := 0
		var sig strings.Builder
		for k := 5 + rng.Intn(120); k > 0; k-- {
			d := names[rng.Intn(len(names))]
			op := rng.Intn(5)
			fmt.Fprintf(&sig, "%d%s,", op, d)
			switch op {
			case 0, 1:
				f := frame.New(frame.MESSAGE, frame.Destination, d, "n", fmt.Sprint(k))
				if err := s.Enqueue(d, f); err != nil {
					r.Fail("memory-error", "Enqueue failed: "+err.Error(), nil)
				}
				m[d] = append(m[d], f)
			case 2:
				f := frame.New(frame.MESSAGE, frame.Destination, d, "n", fmt.Sprint(k))
				if err := s.Requeue(d, f); err != nil {
					r.Fail("memory-error", "Requeue failed: "+err.Error(), nil)
				}
				m[d] = append([]*frame.Frame{f}, m[d]...)
			default:
				f, err := s.Dequeue(d)
				var want *frame.Frame
				if len(m[d]) > 0 {
					want = m[d][0]
					m[d] = m[d][1:]
				}
				if err != nil || (f != want && (f == nil || want == nil || f.Command != want.Command || fmt.Sprint(f.Header) != fmt.Sprint(want.Header))) {
					r.Fail("memory-order", "Dequeue did not return the first message of the queue", map[string]any{"queue": d, "got": fmt.Sprint(f), "want": fmt.Sprint(want), "err": fmt.Sprint(err), "ops": sig.String()})
					return
				}
				if f != nil {
					got++
				}
			}
		}
		r.Count("memory_storage_dequeues", got)
		r.Eval(sig.String(), got > 0)
	})
}

// announcedBodies: a client that announces a huge body but does not send it must not make the server allocate it.
func (r *R) announcedBodies(n int) {
	r.Cases("announce", n, func(i int, rng *rand.Rand) {
		r.inServer(rng, srvOpt{}, func(w *srvWorld) {
			good := w.client("good")
			old := debug.SetGCPercent(-1)
			defer debug.SetGCPercent(old)
			var before, after runtime.MemStats
			runtime.ReadMemStats(&before)
			sent := 0
			k := 1 + rng.Intn(4)
			for j := 0; j < k; j++ {
				h := w.dial(fmt.Sprint("h", j))
				h.gone = true
				b := mk("CONNECT", "accept-version", "1.2", "host", "h").enc()
				if rng.Intn(3) > 0 {
					b = append(b, fmt.Sprintf("SEND\ndestination:/queue/x\ncontent-length:%d\n\n", []int{1 << 28, 1<<31 - 1, 999999999, 1 << 30}[rng.Intn(4)])...)
				} else {
					b = append([]byte{}, fmt.Sprintf("CONNECT\naccept-version:1.2\ncontent-length:%d\n\n", []int{1 << 28, 1<<31 - 1, 999999999}[rng.Intn(3)])...)
				}
				b = append(b, make([]byte, rng.Intn(5000))...)
				sent += len(b)
				_ = h.raw(b)
			}
			w.quiesce()
			runtime.ReadMemStats(&after)
			grown := int64(after.TotalAlloc - before.TotalAlloc)
			limit := int64(8<<20)*int64(k) + 50*int64(sent)
			if grown > limit {
				r.Fail("announced-body", fmt.Sprintf("%d clients that sent %d bytes made the server allocate %d bytes", k, sent, grown), nil)
			}
			r.Max("bytes_allocated_for_announced_bodies", int(grown))
			good.take()
			_ = good.send(mk("SUBSCRIBE", "id", "1", "destination", "/queue/q"), mk("SEND", "destination", "/queue/q", "receipt", "1").with([]byte("hello")))
			w.quiesce()
			ok := 0
			for _, g := range good.take() {
				if g.F.Cmd == "MESSAGE" || g.F.Cmd == "RECEIPT" {
					ok++
				}
			}
			if ok != 2 {
				r.Fail("announced-body-service", "another client was not served while a client announced a huge body", nil)
			}
			r.Eval(fmt.Sprintf("announce %d %d", k, sent), true)
		})
	})
}

// endStates ends connections in particular states, then looks for what is left behind.
func (r *R) endStates(n int) {
	r.Cases("endstate", n, func(i int, rng *rand.Rand) {
		kind := i % 9
		opt := srvOpt{auth: &recAuth{}}
		if rng.Intn(3) == 0 {
			opt.jitter = 30
		}
		r.inServer(rng, opt, func(w *srvWorld) {
			pub := w.client("pub")
			k := 1 + rng.Intn(4)
			for j := 0; j < k; j++ {
				c := w.dial(fmt.Sprint("e", j))
				if kind >= 3 {
					c.connect("accept-version", "1.2", "host", "h")
				}
				switch kind {
				case 0: // nothing sent
				case 1: // inside the first frame
					_ = c.raw([]byte("CONNECT\naccept-ver"))
				case 2: // authentication pending (the server sleeps)
					_ = c.send(mk("CONNECT", "accept-version", "1.2", "login", "bad"), mk("SEND", "destination", "/queue/x"))
				case 3: // inside a body
					_ = c.raw([]byte("SEND\ndestination:/queue/x\ncontent-length:100\n\nabc"))
				case 4: // many frames pipelined
					var fs []*F
					for x := 0; x < 200; x++ {
						fs = append(fs, mk("SEND", "destination", []string{"/queue/x", "/topic/x"}[x%2], "receipt", fmt.Sprint(x)))
					}
					_ = c.send(fs...)
				case 5: // floods waiting for it
					_ = c.send(mk("SUBSCRIBE", "id", "1", "destination", "/topic/x"), mk("SUBSCRIBE", "id", "2", "destination", "/queue/x"), mk("SUBSCRIBE", "id", "3", "destination", "/queue/x", "ack", "client"))
					w.quiesce()
					c.c.SetInCap(50)
					c.c.Pause(true)
				case 6: // a pipelined flood behind DISCONNECT, the client closes late
					var fs []*F
					fs = append(fs, mk("SUBSCRIBE", "id", "1", "destination", "/topic/x"), mk("DISCONNECT", "receipt", "d"))
					for x := 0; x < 100; x++ {
						fs = append(fs, mk("SEND", "destination", "/queue/x"))
					}
					_ = c.send(fs...)
				case 7: // an error in the middle of a pipelined flood
					var fs []*F
					for x := 0; x < 100; x++ {
						fs = append(fs, mk("SEND", "destination", "/queue/x"))
					}
					fs = append(fs, mk("SEND"))
					for x := 0; x < 100; x++ {
						fs = append(fs, mk("SEND", "destination", "/queue/x"))
					}
					_ = c.send(fs...)
				case 8: // open transaction, held messages
					_ = c.send(mk("SUBSCRIBE", "id", "1", "destination", "/queue/x", "ack", "client"), mk("SEND", "destination", "/queue/x"), mk("BEGIN", "transaction", "t"), mk("SEND", "destination", "/queue/x", "transaction", "t"))
				}
			}
			var fs []*F
			for x := 0; x < 60; x++ {
				fs = append(fs, mk("SEND", "destination", []string{"/queue/x", "/topic/x"}[x%2]))
			}
			_ = pub.send(fs...)
			if rng.Intn(2) == 0 {
				time.Sleep(time.Duration(rng.Intn(50)) * time.Microsecond)
			} else if kind != 2 {
				w.quiesce()
			}
			for _, c := range w.clients {
				if c != pub {
					c.drop(rng.Intn(3))
					c.c.Pause(false)
				}
			}
			time.Sleep(5 * time.Second)
			w.quiesce()
			for _, c := range w.clients {
				if c != pub && c.srv.closeCount.Load() == 0 {
					r.Fail("not-closed", fmt.Sprintf("the server did not close its side of a connection that had ended (state %d)", kind), stompStates())
					return
				}
			}
			if pub.isEnded() {
				r.Fail("bystander", "another client lost its connection", kind)
				return
			}
			if what, d := w.leftovers(rng); what != "" {
				r.Fail("leftovers", fmt.Sprintf("state %d: %s", kind, what), d)
				return
			}
			r.Count(fmt.Sprintf("endstate_%d", kind), 1)
			r.Count("leftover_checks", 1)
			r.Eval(fmt.Sprintf("endstate %d %d %v", kind, k, w.ticks.Load()), true)
		})
	})
}

type recAuth struct {
	mu    sync.Mutex
	calls [][2]string
}

func (a *recAuth) Authenticate(login, passcode string) bool {
	a.mu.Lock()
	a.calls = append(a.calls, [2]string{login, passcode})
	a.mu.Unlock()
	return login != "bad" && passcode != "bad"
}

func checkC21(r *R) {
	r.Rule("a connection attempt counts when frames followed the first one (or came instead of it); distinct by the bytes sent and the expected outcome")
	r.serverAssume()
	r.Cases("connect", r.N(9000, 200000), func(i int, rng *rand.Rand) {
		var auth *recAuth
		o := srvOpt{jitter: pickI(rng, 0, 0, 0, 30)}
		if rng.Intn(2) == 0 {
			auth = &recAuth{}
			o.auth = auth
		}
		r.inServer(rng, o, func(w *srvWorld) { r.connectCase(rng, w, auth) })
	})
	r.Require("attempts_accepted", 500)
	r.Require("attempts_refused", 2000)
	r.Require("second_connects", 200)
}

func (r *R) connectCase(rng *rand.Rand, w *srvWorld, auth *recAuth) {
	watch := w.client("watch")
	_ = watch.send(mk("SUBSCRIBE", "id", "w", "destination", "/topic/w"), mk("SUBSCRIBE", "id", "q", "destination", "/queue/held", "ack", "client"),
		mk("SEND", "destination", "/queue/kept", "x-id", "kept"), mk("SEND", "destination", "/queue/held", "x-id", "held"))
	w.quiesce()
	watch.take()
	if auth != nil {
		auth.mu.Lock()
		auth.calls = nil
		auth.mu.Unlock()
	}
	accept := true
	why := ""
	no := func(s string) {
		if accept {
			why = s
		}
		accept = false
	}
	var stream []byte
	f := &F{Cmd: []string{"CONNECT", "CONNECT", "STOMP"}[rng.Intn(3)]}
	version := "1.2"
	var first, login, pass string
	hb := ""
	if rng.Intn(6) == 0 {
		no("first frame is no CONNECT")
		cmds := []string{"SEND", "SUBSCRIBE", "UNSUBSCRIBE", "BEGIN", "COMMIT", "ABORT", "ACK", "NACK", "DISCONNECT", "MESSAGE", "RECEIPT", "ERROR", "CONNECTED"}
		f.Cmd = cmds[rng.Intn(len(cmds))]
		for _, h := range [][2]string{{"destination", []string{"/queue/w", "/topic/w", "/queue/kept"}[rng.Intn(3)]}, {"id", "1"}, {"transaction", "t"}, {"message-id", "1"}, {"version", "1.2"}, {"receipt", "x"}} {
			if h[0] == "transaction" && f.Cmd == "SEND" {
				continue
			}
			if rng.Intn(4) > 0 {
				f.H = append(f.H, h)
			}
		}
	} else if rng.Intn(15) == 0 {
		no("malformed")
		// (a frame with a huge content-length is merely incomplete)
		for first == "" || strings.Contains(first, "99999999999") {
			first = malformedBytes[rng.Intn(len(malformedBytes))]
		}
		if len(first) == 1 || !strings.HasSuffix(first, "\x00") {
			first += "\n\n\x00"
		}
	} else {
		vs := []struct {
			v, best string
		}{{"1.2", "1.2"}, {"1.1", "1.1"}, {"1.0,1.1,1.2", "1.2"}, {"1.2,1.1", "1.2"}, {"1.1,1.0", "1.1"}, {"1.1,1.2", "1.2"}, {"2.0,1.2", "1.2"}, {"1.1,9", "1.1"}, {"1.2,1.2", "1.2"},
			{"1.0", ""}, {"", ""}, {"2.0", ""}, {"1.3", ""}, {"1", ""}, {"1.2.1", ""}, {"11,12", ""}, {"v1.2", ""}, {"1.0,2.0", ""}, {"-", ""}}
		var hs [][2]string
		if rng.Intn(12) == 0 {
			no("no accept-version")
		} else {
			v := vs[rng.Intn(len(vs))]
			if rng.Intn(3) > 0 {
				v = vs[rng.Intn(9)]
			}
			if rng.Intn(3) == 0 { // a list of any length in any order
				pool := []string{"0.9", "1", "1.0", "1.1", "1.2", "1.3", "1.10", "1.20", "2", "2.0", "2.1", "10.0", "x", "", "3.0-beta", "1.1.1", "12"}
				var l []string
				v.best = ""
				n := 1 + rng.Intn(12)
				if rng.Intn(10) == 0 {
					n = rng.Intn(300)
				}
				for k := 0; k < n; k++ {
					e := pool[rng.Intn(len(pool))]
					l = append(l, e)
					if (e == "1.1" || e == "1.2") && e > v.best {
						v.best = e
					}
				}
				v.v = strings.Join(l, ",")
			}
			hs = append(hs, [2]string{"accept-version", v.v})
			version = v.best
			if v.best == "" {
				no("no supported version")
			}
		}
		if rng.Intn(4) > 0 {
			hs = append(hs, [2]string{"host", "h"})
		}
		if rng.Intn(2) == 0 {
			login = []string{"bad", "u", "", "ü:x", " bad", "bad\t", "u ", "Bad"}[rng.Intn(8)]
			hs = append(hs, [2]string{"login", login})
		}
		if rng.Intn(2) == 0 {
			pass = []string{"bad", "p", "", "p\n\\", " bad", "bad ", "\np", "BAD"}[rng.Intn(8)]
			hs = append(hs, [2]string{"passcode", pass})
		}
		if auth != nil && (login == "bad" || pass == "bad") {
			no("authenticator refuses")
		}
		if rng.Intn(2) == 0 {
			if rng.Intn(3) == 0 {
				hb = []string{"", "1", "a,b", "-1,0", "1,2,3", " 1,2", "1,2 ", "1.5,0", "0,x", ",", "1,", ",1", "+1,1", "0;0", "1, 2", "1 ,2", "1,,2", "1,2,", "0x1,1", "1e3,1", "1_0,2", "1,2\t", "\u0663,3", "1,2 ms", "0,-0", "-0,0"}[rng.Intn(26)]
				no("malformed heart-beat")
			} else {
				hb = []string{"0,0", "60000,60000", "0,90000", "90000,0", "999999999,999999999", "00,000"}[rng.Intn(6)]
			}
			hs = append(hs, [2]string{"heart-beat", hb})
		}
		if rng.Intn(10) == 0 {
			hs = append(hs, [2]string{"receipt", "rc"})
			no("receipt header")
		}
		rng.Shuffle(len(hs), func(a, b int) { hs[a], hs[b] = hs[b], hs[a] })
		f.H = hs
		if rng.Intn(8) == 0 {
			stream = append(stream, "\n\n\n"...) // heart-beats before it
		}
	}
	if first == "" {
		first = string(f.enc())
	}
	stream = append(stream, first...)
	// what follows would have visible effects
	var rest []*F
	for k := rng.Intn(6); k > 0; k-- {
		switch rng.Intn(8) {
		case 0, 1:
			rest = append(rest, mk("SEND", "destination", "/topic/w", "x-id", "fx"))
		case 2, 3:
			rest = append(rest, mk("SEND", "destination", "/queue/w", "x-id", "fx"))
		case 4:
			rest = append(rest, mk("SUBSCRIBE", "id", fmt.Sprint("x", k), "destination", "/queue/kept"))
		case 5:
			rest = append(rest, mk("BEGIN", "transaction", fmt.Sprint("t", k)), mk("SEND", "destination", "/queue/w", "transaction", fmt.Sprint("t", k), "x-id", "fx"), mk("COMMIT", "transaction", fmt.Sprint("t", k)))
		case 6:
			rest = append(rest, mk("ACK", "id", "1", "message-id", "1", "subscription", "q"))
		case 7:
			if !accept {
				rest = append(rest, mk("CONNECT", "accept-version", "1.2", "host", "h"))
			}
		}
	}
	for j, g := range rest {
		if rng.Intn(3) == 0 {
			g.H = append(g.H, [2]string{"receipt", fmt.Sprint("rr", j)})
			for _, h := range g.H {
				if g.Cmd == "CONNECT" && h[0] == "receipt" {
					g.H = g.H[:len(g.H)-1]
					break
				}
			}
		}
	}
	// a connection is made once
	second := accept && rng.Intn(4) == 0
	effective := len(rest)
	if second {
		g := mk([]string{"CONNECT", "STOMP"}[rng.Intn(2)], "accept-version", []string{"1.1", "1.2", version}[rng.Intn(3)], "host", "h")
		if rng.Intn(2) == 0 {
			g.H = append(g.H, [2]string{"login", "again"}, [2]string{"passcode", "again"})
		}
		rest = append(rest, g)
		for k := rng.Intn(3); k > 0; k-- {
			rest = append(rest, mk("SEND", "destination", []string{"/topic/w", "/queue/w"}[rng.Intn(2)], "x-id", "late"))
		}
	}
	c := w.dial("new")
	together := rng.Intn(3) > 0
	for _, g := range rest {
		if together {
			stream = append(stream, g.enc()...)
		}
	}
	_ = c.raw(stream)
	w.quiesce()
	if !together {
		for _, g := range rest {
			_ = c.send(g)
			w.quiesce()
		}
	}
	time.Sleep(2 * time.Second) // a refusal may be delayed on purpose
	w.quiesce()
	got := c.take()
	var cmds []string
	for _, g := range got {
		cmds = append(cmds, g.F.Cmd)
	}
	desc := map[string]any{"sent": q(stream), "expected accept": accept, "why": why, "answers": cmds, "together": together}
	sends, subs := map[string]int{}, 0
	wantR := 0
	if accept {
		for _, g := range rest[:effective] {
			if g.Cmd == "SEND" {
				sends[g.val("destination")]++
			}
			if g.Cmd == "SUBSCRIBE" {
				subs++
			}
			if _, ok := g.get("receipt"); ok {
				wantR++
			}
		}
		if len(got) == 0 || got[0].F.Cmd != "CONNECTED" {
			r.Fail("refused", "a valid CONNECT was not answered with CONNECTED", desc)
			return
		}
		if v := got[0].F.val("version"); v != version {
			r.Fail("version", fmt.Sprintf("the server chose version %q, the highest offered is %q", v, version), desc)
			return
		}
		n := map[string]int{}
		for _, x := range cmds {
			n[x]++
		}
		wantE := 0
		if second {
			wantE = 1
			r.Count("second_connects", 1)
		}
		if n["CONNECTED"] != 1 || n["ERROR"] != wantE || n["RECEIPT"] != wantR {
			r.Fail("after-connect", fmt.Sprintf("expected one CONNECTED, %d ERROR and %d RECEIPTs (second connect: %v)", wantE, wantR, second), desc)
			return
		}
		if second && (!c.isEnded() || c.srv.closeCount.Load() == 0) {
			r.Fail("open", "the connection stayed open after a second CONNECT", desc)
			return
		} else if second {
		} else if c.isEnded() || c.srv.closeCount.Load() > 0 {
			r.Fail("closed", "an accepted connection was closed", desc)
			return
		}
		r.Count("attempts_accepted", 1)
	} else {
		nerr := 0
		for _, x := range cmds {
			if x == "ERROR" {
				nerr++
			} else {
				r.Fail("answered", "a refused client was sent a "+x+" ("+why+")", desc)
				return
			}
		}
		if nerr > 1 {
			r.Fail("answered", "a refused client was sent more than one ERROR", desc)
			return
		}
		if !c.isEnded() || c.srv.closeCount.Load() == 0 {
			r.Fail("open", "the connection of a refused client stayed open ("+why+")", desc)
			return
		}
		r.Count("attempts_refused", 1)
		r.Count("refused: "+why, 1)
	}
	if auth != nil && first == string(f.enc()) && (f.Cmd == "CONNECT" || f.Cmd == "STOMP") {
		auth.mu.Lock()
		calls := fmt.Sprint(auth.calls)
		auth.mu.Unlock()
		if accept && calls != fmt.Sprint([][2]string{{login, pass}}) {
			r.Fail("auth-args", fmt.Sprintf("the authenticator was asked %v, the frame says %q %q", calls, login, pass), desc)
			return
		}
	}
	// effects
	tw := 0
	for _, g := range watch.take() {
		if g.F.Cmd == "MESSAGE" && g.F.val("subscription") == "w" {
			tw++
		} else {
			r.Fail("effect", "another client was sent an unexpected "+g.F.Cmd, desc)
			return
		}
	}
	if watch.isEnded() {
		r.Fail("effect", "another client's connection was closed", desc)
		return
	}
	if tw != sends["/topic/w"] {
		r.Fail("effect", fmt.Sprintf("%d messages reached a topic, expected %d", tw, sends["/topic/w"]), desc)
		return
	}
	c.drop(0)
	w.quiesce()
	// whatever watch holds comes back, everything is then taken
	watch.drop(0)
	w.quiesce()
	d := w.client("drain")
	for j, x := range []string{"/queue/w", "/queue/kept", "/queue/held"} {
		_ = d.send(mk("SUBSCRIBE", "id", fmt.Sprint(j), "destination", x))
	}
	w.quiesce()
	var left []string
	for _, g := range d.take() {
		left = append(left, g.F.val("destination"))
	}
	sort.Strings(left)
	var want []string
	want = append(want, "/queue/held")
	delivered := false
	for _, x := range cmds {
		delivered = delivered || x == "MESSAGE"
	}
	if subs == 0 || second && !delivered {
		want = append(want, "/queue/kept")
	}
	for k := 0; k < sends["/queue/w"]; k++ {
		want = append(want, "/queue/w")
	}
	sort.Strings(want)
	if fmt.Sprint(left) != fmt.Sprint(want) {
		r.Fail("effect", fmt.Sprintf("the queues held %v at the end, expected %v", left, want), desc)
		return
	}
	r.Eval(string(stream)+fmt.Sprint(accept), len(rest) > 0)
	r.Sample("connect accept="+fmt.Sprint(accept), desc)
}

func checkC29(r *R) {
	r.Rule("a connection counts when it negotiated a non-zero interval in some direction; distinct by offered, requested and configured values and the observed transmission times")
	r.serverAssume()
	r.Cases("hb", r.N(2500, 50000), func(i int, rng *rand.Rand) {
		min := []time.Duration{0, time.Millisecond, 10 * time.Millisecond, 100 * time.Millisecond, time.Second, 5 * time.Minute, 500 * time.Microsecond, 50 * time.Minute, 30 * 24 * time.Hour}[[]int{0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8}[rng.Intn(16)]]
		r.inServer(rng, srvOpt{heartBeat: min}, func(w *srvWorld) { r.heartBeatCase(rng, w, min) })
	})
	r.stepwise("no-beats", r.N(300, 8000), profAny, srvOpt{})
	r.stepwise("no-beats-tx", r.N(200, 4000), profTx, srvOpt{})
	r.Require("timeouts_seen", 200)
	r.Require("server_gaps_checked", 2000)
}

func (r *R) heartBeatCase(rng *rand.Rand, w *srvWorld, min time.Duration) {
	minMs := int(min / time.Millisecond)
	if min == 0 {
		minMs = 60000
	}
	if minMs > 999999999 {
		minMs = 999999999 // no more can be agreed
	}
	val := func() int {
		return []int{0, 1, 5, 10, 50, 100, 500, 1000, 3000, 60000, 120000, 1 + rng.Intn(5000), 1 + rng.Intn(999999999), 999999999 - rng.Intn(2)}[rng.Intn(14)]
	}
	cx, cy := val(), val()
	x, y := cx, cy
	if x > 0 && x < minMs {
		x = minMs
	}
	if y > 0 && y < minMs {
		y = minMs
	}
	pub := w.client("pub")
	c := w.dial("c")
	f := mk("CONNECT", "accept-version", "1.1,1.2", "host", "h", "heart-beat", fmt.Sprintf("%d,%d", cx, cy))
	if cx == 0 && cy == 0 && rng.Intn(2) == 0 {
		f = mk("CONNECT", "accept-version", "1.1,1.2", "host", "h")
	}
	var mu sync.Mutex
	var tx []time.Duration
	c.c.onData = func() {
		mu.Lock()
		tx = append(tx, w.now())
		mu.Unlock()
	}
	_ = c.send(f, mk("SUBSCRIBE", "id", "1", "destination", "/topic/t"), mk("SUBSCRIBE", "id", "2", "destination", "/queue/t"),
		mk("SUBSCRIBE", "id", "3", "destination", "/queue/u", "ack", "client"))
	synctest.Wait()
	start := w.now()
	got := c.take()
	desc := map[string]any{"offered": cx, "requested": cy, "minimum": minMs}
	if len(got) == 0 || got[0].F.Cmd != "CONNECTED" {
		r.Fail("refused", "a valid CONNECT was not answered with CONNECTED", desc)
		return
	}
	if v := got[0].F.val("heart-beat"); v != fmt.Sprintf("%d,%d", y, x) {
		r.Fail("negotiation", fmt.Sprintf("CONNECTED heart-beat is %q, expected \"%d,%d\"", v, y, x), desc)
		return
	}
	// how long to watch
	span := 10 * time.Duration(y) * time.Millisecond
	if s := 6 * time.Duration(x) * time.Millisecond; s > span {
		span = s
	}
	if span < time.Minute || x == 0 && rng.Intn(3) == 0 {
		span = time.Minute + time.Duration(rng.Intn(60))*time.Minute
	}
	if y > 0 && span > 300*time.Duration(y)*time.Millisecond {
		span = 300 * time.Duration(y) * time.Millisecond
		if s := 6 * time.Duration(x) * time.Millisecond; x > 0 && s > span {
			span = s
			if s > 3000*time.Duration(y)*time.Millisecond {
				span = 3000 * time.Duration(y) * time.Millisecond
			}
		}
	}
	end := start + span
	lastSent := start
	xd := time.Duration(x) * time.Millisecond
	// the client keeps its promise for a random part of the time
	promise := start + time.Duration(rng.Int63n(int64(span)))
	if rng.Intn(3) == 0 {
		promise = end
	}
	nextPub := start + time.Duration(rng.Int63n(int64(span)/2+1))
	pubs, steps := 0, 0
	dribble := []byte(nil)
	for w.now() < end && !c.isEnded() && steps < 6000 {
		steps++
		next := end
		var act string
		if x > 0 && w.now() < promise {
			gap := xd - time.Duration(1+rng.Int63n(int64(xd)))*time.Duration(rng.Intn(2))
			if rng.Intn(3) == 0 {
				gap = xd
			}
			if gap < xd/8 {
				gap = xd / 8
			}
			if t := lastSent + gap; t < next {
				next, act = t, "send"
			}
		}
		if nextPub < next && pubs < 40 {
			next, act = nextPub, "pub"
		}
		if d := next - w.now(); d > 0 {
			time.Sleep(d)
			synctest.Wait()
		}
		if c.isEnded() {
			break
		}
		switch act {
		case "send":
			switch {
			case len(dribble) > 0: // a frame that takes its time
				k := 1 + rng.Intn(3)
				if k > len(dribble) {
					k = len(dribble)
				}
				_ = c.raw(dribble[:k])
				dribble = dribble[k:]
			case rng.Intn(8) == 0:
				dribble = mk("SEND", "destination", "/queue/slow").with([]byte("0123456789")).enc()
				_ = c.raw(dribble[:1])
				dribble = dribble[1:]
				r.Count("slow_frames", 1)
			case rng.Intn(3) == 0:
				_ = c.send(mk("SEND", "destination", "/queue/s", "receipt", "x"))
			default:
				_ = c.raw([]byte("\n"))
			}
			lastSent = w.now()
		case "pub":
			_ = pub.send(mk("SEND", "destination", []string{"/topic/t", "/queue/t", "/queue/u"}[rng.Intn(3)]).with([]byte("x")))
			pubs++
			nextPub += time.Duration(1 + rng.Int63n(int64(span)/3+1))
			if rng.Intn(4) == 0 && y > 0 {
				nextPub = w.now() + time.Duration(y)*time.Millisecond - time.Duration(rng.Intn(2))*time.Microsecond
			}
		}
		synctest.Wait()
	}
	now := w.now()
	desc["span"] = span.String()
	if c.isEnded() {
		var at time.Duration
		c.mu.Lock()
		at = c.endAt
		c.mu.Unlock()
		silent := at - lastSent
		desc["silent for"] = silent.String()
		if x == 0 {
			r.Fail("closed-without-agreement", "a client that does not send heart-beats was disconnected for silence", desc)
			return
		}
		if silent < xd {
			r.Fail("closed-early", fmt.Sprintf("a client was disconnected after %v of silence, agreed were %v", silent, xd), desc)
			return
		}
		if silent > 4*xd {
			r.Fail("closed-late", fmt.Sprintf("a client was disconnected only after %v of silence, agreed were %v", silent, xd), desc)
			return
		}
		r.Count("timeouts_seen", 1)
		now = at
	} else if x > 0 && now-lastSent > 4*xd {
		r.Fail("not-closed", fmt.Sprintf("a client that agreed to send every %v was not disconnected after %v of silence", xd, now-lastSent), desc)
		return
	}
	if y > 0 {
		mu.Lock()
		ts := append([]time.Duration{}, tx...)
		mu.Unlock()
		prev := start
		for _, t := range append(ts, now) {
			if t < prev {
				continue
			}
			if t-prev > time.Duration(y)*time.Millisecond+time.Millisecond {
				desc["gap"] = (t - prev).String()
				r.Fail("gap", fmt.Sprintf("the server was silent for %v, agreed were %d ms", t-prev, y), desc)
				return
			}
			prev = t
			r.Count("server_gaps_checked", 1)
		}
	}
	r.Eval(fmt.Sprint(cx, cy, minMs, len(tx), steps), x > 0 || y > 0)
	r.Sample("heart-beat", desc)
}
