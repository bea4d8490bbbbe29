package harness

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
)

// Long lives: one connection of the library's client to the library's server (and one to drive it) on which the same things
// are done tens of thousands of times, so that numbers, ids, tables and buffers get as large as they do in a connection that
// stays open for weeks. Every single step is checked.

const ruleLong = " Long lives: one pair of connections does the operations of a focus (messages, acknowledgements, receipts, transactions, " +
	"subscriptions) at least 70000 times, each step judged on its own."

type longFocus struct {
	queue, topic, ack, nack, receipt, tx, resub, clientTx bool
}

var longFoci = map[string]longFocus{
	"messages":      {queue: true, topic: true},
	"acks":          {queue: true, ack: true, nack: true},
	"receipts":      {topic: true, receipt: true},
	"transactions":  {topic: true, tx: true},
	"ack-tx":        {queue: true, ack: true, tx: true, clientTx: true},
	"subscriptions": {topic: true, resub: true},
	"everything":    {queue: true, topic: true, ack: true, nack: true, receipt: true, tx: true, resub: true},
}

type longLife struct {
	r        *R
	rng      *rand.Rand
	f        longFocus
	name     string
	version  stomp.Version
	mode     stomp.AckMode
	p, c     *stomp.Conn // the sender and the receiver
	q, t     *stomp.Subscription
	k        int
	failed   bool
	ids      map[string]bool // of messages
	own      map[string]bool // that the client allocated
	pSent    int64
	messages int
	waiting  bool // messages wait for the subscription
}

func (r *R) longLives(label string, focus string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		r.inServer(rng, srvOpt{}, func(w *srvWorld) {
			l := &longLife{r: r, rng: rng, f: longFoci[focus], name: focus, ids: map[string]bool{}, own: map[string]bool{}}
			l.version = []stomp.Version{stomp.V12, stomp.V11}[i%2]
			l.mode = stomp.AckAuto
			if l.f.ack {
				l.mode = []stomp.AckMode{stomp.AckClientIndividual, stomp.AckClient}[i/2%2]
			}
			rounds := 70000
			if r.Thorough {
				rounds = 150000
			}
			connect := func(frag bool) (*stomp.Conn, *MemConn) {
				mc, ms := w.l.dial()
				if frag {
					mc.Fragment(randChunk(rng.Int63()))
					ms.Fragment(randChunk(rng.Int63()))
				}
				c, err := stomp.Connect(mc, stomp.ConnOpt.Logger(nopLog{}), stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.AcceptVersion(l.version), stomp.ConnOpt.WithStats())
				if err != nil {
					l.fail("connect", "Connect failed", err.Error())
				}
				return c, mc
			}
			var mc, mp *MemConn
			l.p, mp = connect(false)
			l.c, mc = connect(i%3 == 2)
			if !l.failed {
				l.subscribe()
			}
			for l.k = 0; l.k < rounds && !l.failed; l.k++ {
				l.round()
				if l.k%1000 == 0 {
					time.Sleep(time.Second) // lets the engine see that it goes on
				}
			}
			r.Count("long_rounds", l.k)
			r.Count("long_messages", l.messages)
			if l.f.queue && !l.failed {
				l.backlog(20000)
			}
			if !l.failed {
				l.stats()
			}
			for _, c := range []*stomp.Conn{l.c, l.p} {
				if !l.failed {
					if err := c.Disconnect(); err != nil {
						l.fail("disconnect", "Disconnect failed at the end of a long life", err.Error())
					}
				}
			}
			r.Eval(fmt.Sprintf("long/%s/%s/%v", focus, l.version, l.mode), true)
			mc.Reset()
			mp.Reset()
		})
	})
	r.mu.Lock()
	if !strings.HasSuffix(r.rule, ruleLong) {
		r.rule += ruleLong
	}
	r.mu.Unlock()
	r.Require("long_rounds", 70000)
}

func (l *longLife) fail(key, what string, detail any) {
	if l.failed {
		return
	}
	l.failed = true
	l.r.Fail("long-"+key, what, map[string]any{"focus": l.name, "round": l.k, "version": l.version, "ack mode": l.mode.String(), "detail": detail})
}

func (l *longLife) must(what string, err error) {
	if err != nil {
		l.fail("error", what+" failed in a long life: "+err.Error(), nil)
	}
}

// new is told every id the client allocates.
func (l *longLife) new(kind, id string) {
	if id == "" || l.own[id] {
		l.fail("id", fmt.Sprintf("a %s got the id %q, which was used before", kind, id), nil)
	}
	l.own[id] = true
}

func (l *longLife) subscribe() {
	var err error
	if l.f.queue {
		if l.q, err = l.c.Subscribe("/queue/long", l.mode); err != nil {
			l.must("Subscribe", err)
			return
		}
		l.new("subscription", l.q.Id())
	}
	if l.f.topic {
		if l.t, err = l.c.Subscribe("/topic/long", stomp.AckAuto); err != nil {
			l.must("Subscribe", err)
			return
		}
		l.new("subscription", l.t.Id())
	}
	if l.waiting { // what comes at once has to be read at once
		return
	}
	// the server has to know before anything is sent
	if err := l.c.Send("/topic/sync", "", nil, stomp.SendOpt.Receipt); err != nil {
		l.must("Send with receipt", err)
	}
}

func (l *longLife) recv(s *stomp.Subscription, want string) *stomp.Message {
	if l.failed {
		return nil
	}
	var m *stomp.Message
	select {
	case m = <-s.C:
	case <-time.After(5 * time.Minute):
		l.fail("lost", "a message of a long life has not arrived", want)
		return nil
	}
	switch {
	case m == nil:
		l.fail("closed", "the channel of a subscription was closed", want)
		return nil
	case m.Err != nil:
		l.fail("ended", "a subscription ended with an error", m.Err.Error())
		return nil
	case string(m.Body) != want || m.Subscription != s || m.Header.Get("subscription") != s.Id() || m.Destination != s.Destination() || m.ContentType != "text/plain" || m.Header.Get("x") != want:
		l.fail("message", "a message of a long life is not the one that is due", map[string]any{"want": want, "got": string(m.Body), "header": fmt.Sprint(*m.Header), "subscription": s.Id()})
		return nil
	}
	id := m.Header.Get("message-id")
	if id == "" || l.ids[id] {
		l.fail("message-id", "a message-id was used twice on one connection", id)
	}
	l.ids[id] = true
	l.messages++
	return m
}

func (l *longLife) send(dest, body string) {
	opts := []func(*frame.Frame) error{stomp.SendOpt.Header("x", body)}
	if l.f.receipt {
		opts = append(opts, stomp.SendOpt.Receipt, func(f *frame.Frame) error { l.new("receipt", f.Header.Get("receipt")); return nil })
	}
	if !l.f.tx || l.f.clientTx {
		l.must("Send", l.p.Send(dest, "text/plain", []byte(body), opts...))
		return
	}
	tx, err := l.p.BeginWithError()
	if err != nil {
		l.must("Begin", err)
		return
	}
	l.new("transaction", tx.Id())
	if l.k%5 == 4 { // one that is given up
		l.must("Send", tx.Send(dest, "text/plain", []byte("aborted"), stomp.SendOpt.Header("x", body)))
		l.must("Abort", tx.Abort())
		if tx, err = l.p.BeginWithError(); err != nil {
			l.must("Begin", err)
			return
		}
		l.new("transaction", tx.Id())
	}
	l.must("Send", tx.Send(dest, "text/plain", []byte(body), stomp.SendOpt.Header("x", body)))
	if l.k%3 == 0 {
		l.must("CommitWithReceipt", tx.CommitWithReceipt())
	} else {
		l.must("Commit", tx.Commit())
	}
}

func (l *longLife) round() {
	body := strconv.Itoa(l.k)
	if l.k%500 == 77 {
		body += strings.Repeat("x", l.rng.Intn(20000))
	}
	if l.f.queue {
		l.send("/queue/long", body)
	}
	if l.f.topic {
		l.send("/topic/long", body)
		l.recv(l.t, body)
	}
	if l.f.queue {
		m := l.recv(l.q, body)
		if m != nil && l.f.nack && l.k%7 == 3 {
			l.must("Nack", l.c.Nack(m))
			m = l.recv(l.q, body)
		}
		switch {
		case m == nil || !l.f.ack:
		case l.f.clientTx:
			tx, err := l.c.BeginWithError()
			if err != nil {
				l.must("Begin", err)
				return
			}
			l.new("transaction", tx.Id())
			l.must("Ack", tx.Ack(m))
			l.must("Commit", tx.Commit())
		default:
			l.must("Ack", l.c.Ack(m))
		}
	}
	if l.f.resub {
		l.must("Unsubscribe", l.unsubscribe())
		if !l.failed {
			l.subscribe()
		}
	}
}

// backlog: very many messages wait for a subscription, and come in order once there is one.
func (l *longLife) backlog(n int) {
	if l.must("Unsubscribe", l.unsubscribe()); l.failed {
		return
	}
	for k := 0; k < n && !l.failed; k++ {
		l.must("Send", l.p.Send("/queue/long", "text/plain", []byte(fmt.Sprint("b", k)), stomp.SendOpt.Header("x", fmt.Sprint("b", k))))
	}
	l.must("Send with receipt", l.p.Send("/topic/sync", "", nil, stomp.SendOpt.Receipt))
	if l.failed {
		return
	}
	l.waiting = true
	l.subscribe()
	for k := 0; k < n && !l.failed; k++ {
		if m := l.recv(l.q, fmt.Sprint("b", k)); m != nil {
			l.must("Ack", l.c.Ack(m))
		}
	}
	l.r.Count("long_backlog", n)
}

func (l *longLife) unsubscribe() error {
	var wg sync.WaitGroup
	var errs [2]error
	for i, s := range []*stomp.Subscription{l.q, l.t} {
		if s == nil {
			continue
		}
		wg.Add(1)
		go func() { defer wg.Done(); errs[i] = s.Unsubscribe() }()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	for _, s := range []*stomp.Subscription{l.q, l.t} {
		if s != nil {
			if m, ok := <-s.C; ok {
				return fmt.Errorf("the channel is not closed, it has %v", m)
			}
		}
	}
	return nil
}

// stats: what the receiving connection says it has received must include every message.
func (l *longLife) stats() {
	if s := l.c.Stats(); s.ReadsReceived < int64(l.messages) {
		l.fail("stats", "fewer frames counted than messages received", map[string]any{"counted": s.ReadsReceived, "messages": l.messages})
	}
}
