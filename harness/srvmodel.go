package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Reference broker: what the server must do with a sequence of steps when the system is quiescent in between. It follows
// the observed choice where the specification leaves one (which consumer of a queue gets a message).

type mMsg struct {
	id      string
	sent    *F
	from    *rawClient
	dest    string
	deliver int
	settled bool
}

type mSub struct {
	cli   *rawClient
	id    string
	dest  string
	ack   string
	out   *mMsg
	outF  *F
	queue bool
	past  []*F // earlier deliveries (for hostile acks)
}

type mQueue struct{ groups [][]*mMsg }

type txOp struct {
	cmd  string
	f    *F
	msg  *mMsg
	name string // ack id value
}

type mClient struct {
	c        *rawClient
	subs     map[string]*mSub
	tx       map[string][]txOp
	msgIDs   map[string]bool
	alive    bool
	expErr   bool
	mayErr   bool // an ERROR is allowed, not required (malformed bytes)
	errRcpt  string
	receipts []string
	topicExp map[*mSub][]*mMsg
	topicMay map[*mSub][]*mMsg // due when the connection ended: any prefix may have arrived
	active   map[*mSub]bool    // subscriptions that may receive in this step
	hist     []string
}

type broker struct {
	w      *srvWorld
	r      *R
	cl     []*mClient
	q      map[string]*mQueue
	msgs   map[string]*mMsg
	nmsg   int
	nrcpt  int
	log    []string
	failed bool
	prof   *profile
	sig    []string
	// of the current step
	dead       []*mClient
	multi      bool           // several effects in one step, which the server may interleave with deliveries
	float      map[*mMsg]bool // went back to its queue in such a step: its place among the deliveries of the step is open
	checkStore bool
	loose      map[string]bool // queue with a consumer that ended in the middle of such a step: order is open
}

type profile struct {
	weights map[string]int
	queues  []string
	topics  []string
	clients int
	steps   int
	bodies  bool // large and binary bodies, hostile headers
	burst   int
	ackMode []string
	rcptPct int
	prefix  bool
}

func isQ(dest string) bool { return strings.HasPrefix(dest, "/queue") }

func newBroker(w *srvWorld, p *profile) *broker {
	return &broker{w: w, r: w.r, q: map[string]*mQueue{}, msgs: map[string]*mMsg{}, prof: p, float: map[*mMsg]bool{}, loose: map[string]bool{}}
}

// back in front of its queue
func (b *broker) putBack(d string, ms ...*mMsg) {
	if b.multi {
		for _, m := range ms {
			b.float[m] = true
		}
	}
	b.queue(d).frontGroup(ms)
}

func (b *broker) fail(key, what string, detail any) {
	if b.failed {
		return
	}
	b.failed = true
	if (b.r.Prop == "C29") != (key == "uninvited-beat") {
		b.r.Count("failures_of_other_properties", 1)
		return
	}
	n := len(b.log)
	from := 0
	if n > 60 {
		from = n - 60
	}
	b.r.Fail(key, what, map[string]any{"detail": detail, "history": b.log[from:]})
}

func (b *broker) logf(f string, a ...any) { b.log = append(b.log, fmt.Sprintf(f, a...)) }

func (b *broker) queue(d string) *mQueue {
	x := b.q[d]
	if x == nil {
		x = &mQueue{}
		b.q[d] = x
	}
	return x
}

func (x *mQueue) back(m *mMsg) { x.groups = append(x.groups, []*mMsg{m}) }
func (x *mQueue) frontGroup(ms []*mMsg) {
	if len(ms) > 0 {
		x.groups = append([][]*mMsg{ms}, x.groups...)
	}
}
func (x *mQueue) len() int {
	n := 0
	for _, g := range x.groups {
		n += len(g)
	}
	return n
}

func (b *broker) connectClient(name string, kv ...string) *mClient {
	c := b.w.client(name, kv...)
	m := &mClient{c: c, subs: map[string]*mSub{}, tx: map[string][]txOp{}, msgIDs: map[string]bool{}, alive: true,
		topicExp: map[*mSub][]*mMsg{}, active: map[*mSub]bool{}}
	b.cl = append(b.cl, m)
	b.logf("%s: connect %s", name, c.version)
	return m
}

// model of one frame sent by client m; false when the connection is over afterwards.
func (b *broker) apply(m *mClient, f *F) bool {
	rc, hasR := f.get("receipt")
	fail := func() bool {
		m.expErr = true
		if hasR {
			m.errRcpt = rc
		}
		b.gone(m)
		return false
	}
	okk := func() bool {
		if hasR {
			m.receipts = append(m.receipts, rc)
		}
		return true
	}
	switch f.Cmd {
	case "SEND":
		dest, ok := f.get("destination")
		if !ok {
			return fail()
		}
		msg := b.msgs[f.val("x-id")]
		if t, ok := f.get("transaction"); ok {
			ops, ok := m.tx[t]
			if !ok {
				return fail()
			}
			m.tx[t] = append(ops, txOp{cmd: "SEND", f: f, msg: msg})
			return okk()
		}
		b.publish(msg, dest)
		return okk()
	case "SUBSCRIBE":
		id, ok := f.get("id")
		if !ok {
			return fail()
		}
		dest, ok := f.get("destination")
		if !ok {
			return fail()
		}
		ack, ok := f.get("ack")
		if !ok {
			ack = "auto"
		}
		if ack != "auto" && ack != "client" && ack != "client-individual" {
			return fail()
		}
		if m.subs[id] != nil {
			return fail()
		}
		s := &mSub{cli: m.c, id: id, dest: dest, ack: ack, queue: isQ(dest)}
		m.subs[id] = s
		m.active[s] = true
		return okk()
	case "UNSUBSCRIBE":
		id, ok := f.get("id")
		if !ok {
			return fail()
		}
		s := m.subs[id]
		if s == nil {
			return fail()
		}
		delete(m.subs, id)
		delete(m.active, s)
		if s.out != nil {
			b.putBack(s.dest, s.out)
			s.out = nil
		}
		return okk()
	case "ACK", "NACK":
		name, ok := b.ackName(m, f)
		if !ok {
			return fail()
		}
		if _, err := strconv.ParseUint(name, 10, 64); err != nil {
			return fail()
		}
		if t, ok := f.get("transaction"); ok {
			ops, ok := m.tx[t]
			if !ok {
				return fail()
			}
			m.tx[t] = append(ops, txOp{cmd: f.Cmd, f: f, name: name})
			return okk()
		}
		b.settle(m, f.Cmd, name)
		return okk()
	case "BEGIN", "COMMIT", "ABORT":
		t, ok := f.get("transaction")
		if !ok {
			return fail()
		}
		ops, open := m.tx[t]
		if f.Cmd == "BEGIN" {
			if open {
				return fail()
			}
			m.tx[t] = []txOp{}
			return okk()
		}
		if !open {
			return fail()
		}
		delete(m.tx, t)
		if f.Cmd == "COMMIT" {
			for _, o := range ops {
				if o.cmd == "SEND" {
					b.publish(o.msg, o.f.val("destination"))
				} else {
					b.settle(m, o.cmd, o.name)
				}
			}
		}
		return okk()
	case "DISCONNECT":
		okk()
		b.gone(m)
		m.c.gone = true
		return false
	}
	return fail()
}

func (b *broker) ackName(m *mClient, f *F) (string, bool) {
	if m.c.version == "1.2" {
		if v, ok := f.get("id"); ok {
			return v, true
		}
	}
	if v, ok := f.get("ack"); ok {
		return v, true
	}
	return f.get("message-id")
}

func (b *broker) publish(msg *mMsg, dest string) {
	if isQ(dest) {
		b.queue(dest).back(msg)
		return
	}
	for _, o := range b.cl {
		if !o.alive {
			continue
		}
		for _, s := range o.subs {
			if s.dest == dest {
				o.topicExp[s] = append(o.topicExp[s], msg)
			}
		}
	}
}

func (b *broker) settle(m *mClient, cmd, name string) {
	for _, s := range m.subs {
		if s.out != nil && ackValue(m, s.outF) == name {
			msg := s.out
			s.out, s.outF = nil, nil
			if cmd == "ACK" {
				msg.settled = true
			} else {
				b.putBack(s.dest, msg)
			}
			return
		}
	}
}

func ackValue(m *mClient, f *F) string {
	if m.c.version == "1.2" {
		return f.val("ack")
	}
	return f.val("message-id")
}

// gone: the client's connection is over; everything it held goes back.
func (b *broker) gone(m *mClient) {
	if !m.alive {
		return
	}
	m.alive = false
	held := map[string][]*mMsg{}
	for _, s := range m.subs {
		if s.out != nil {
			held[s.dest] = append(held[s.dest], s.out)
		}
		if b.multi {
			b.loose[s.dest] = true
		}
	}
	for d, ms := range held {
		b.putBack(d, ms...)
	}
	m.subs = map[string]*mSub{}
	m.tx = map[string][]txOp{}
	m.topicMay = m.topicExp
	m.topicExp = map[*mSub][]*mMsg{}
	b.dead = append(b.dead, m)
}

// contentDiff compares a MESSAGE with the SEND it comes from (property C33).
func contentDiff(got *F, msg *mMsg, s *mSub) string {
	owned := map[string]bool{"subscription": true, "message-id": true, "id": true, "ack": true}
	strip := func(f *F, more ...string) [][2]string {
		var h [][2]string
	next:
		for _, e := range f.H {
			if owned[e[0]] {
				continue
			}
			for _, x := range more {
				if e[0] == x {
					continue next
				}
			}
			h = append(h, e)
		}
		return h
	}
	a, w := strip(got), strip(msg.sent, "receipt", "transaction")
	if fmt.Sprint(a) != fmt.Sprint(w) || len(a) != len(w) {
		return fmt.Sprintf("headers %q, sent %q", a, w)
	}
	if !bytes.Equal(got.Body, msg.sent.Body) {
		return fmt.Sprintf("body %s, sent %s", q(got.Body), q(msg.sent.Body))
	}
	if got.val("subscription") != s.id {
		return fmt.Sprintf("subscription header %q, want %q", got.val("subscription"), s.id)
	}
	if _, ok := got.get("message-id"); !ok {
		return "no message-id header"
	}
	if v, ok := got.get("ack"); ok != (s.ack != "auto") {
		return fmt.Sprintf("ack header present=%v (%q) for ack mode %s", ok, v, s.ack)
	}
	return ""
}

type qDelivery struct {
	s   *mSub
	m   *mClient
	msg *mMsg
	f   *F
}

// verify compares everything received since the last step with the model.
func (b *broker) verify() {
	w := b.w
	w.quiesce()
	perQ := map[string][]qDelivery{}
	nmsgs := 0
	for _, m := range b.cl {
		got := m.c.take()
		if n := m.c.beats(); n > 0 {
			b.fail("uninvited-beat", "the server sent a heart-beat to a client that wants none", map[string]any{"client": m.c.name, "sent": tail(m.hist, 12)})
			return
		}
		for _, p := range m.c.problems() {
			b.fail("malformed-output", "the server wrote bytes that are not STOMP frames", map[string]any{"client": m.c.name, "problem": p})
		}
		var rcpts []string
		topicGot := map[*mSub][]*mMsg{}
		errSeen := 0
		for _, g := range got {
			f := g.F
			if errSeen > 0 {
				b.fail("after-error", "a frame followed an ERROR", map[string]any{"client": m.c.name, "frame": f.String()})
				return
			}
			switch f.Cmd {
			case "RECEIPT":
				rcpts = append(rcpts, f.val("receipt-id"))
			case "ERROR":
				errSeen++
				if !m.expErr && !m.mayErr {
					b.fail("unexpected-error", "a valid frame was answered with ERROR", map[string]any{"client": m.c.name, "frame": f.String(), "sent": tail(m.hist, 12)})
					return
				}
				if v := f.val("receipt-id"); v != m.errRcpt {
					b.fail("error-receipt", fmt.Sprintf("ERROR carries receipt-id %q, the refused frame asked for %q", v, m.errRcpt), map[string]any{"client": m.c.name, "frame": f.String()})
					return
				}
			case "MESSAGE":
				nmsgs++
				msg := b.msgs[f.val("x-id")]
				var s *mSub
				for x := range m.active {
					if x.id == f.val("subscription") {
						s = x
					}
				}
				if msg == nil {
					b.fail("unknown-message", "a MESSAGE that nobody sent was delivered", map[string]any{"client": m.c.name, "frame": f.String()})
					return
				}
				if s == nil {
					b.fail("no-subscription", "a MESSAGE was delivered under an id that has no subscription", map[string]any{"client": m.c.name, "frame": f.String()})
					return
				}
				if d := contentDiff(f, msg, s); d != "" {
					b.fail("content", "a delivered MESSAGE differs from what was sent: "+d, map[string]any{"client": m.c.name, "sub": s.id, "frame": f.String()})
					return
				}
				if s.dest != f.val("destination") {
					b.fail("wrong-destination", "a MESSAGE was delivered to a subscription of another destination", map[string]any{"client": m.c.name, "sub": s.dest, "frame": f.String()})
					return
				}
				if m.msgIDs[f.val("message-id")] {
					b.fail("message-id-reused", "a message-id was used twice on one connection", map[string]any{"client": m.c.name, "frame": f.String()})
					return
				}
				m.msgIDs[f.val("message-id")] = true
				msg.deliver++
				if s.queue {
					perQ[s.dest] = append(perQ[s.dest], qDelivery{s, m, msg, f})
				} else {
					topicGot[s] = append(topicGot[s], msg)
					s.past = append(s.past, f)
				}
			default:
				b.fail("unexpected-frame", "the server sent an unexpected frame", map[string]any{"client": m.c.name, "frame": f.String()})
				return
			}
		}
		// receipts: exactly the expected ones, in order
		if strings.Join(rcpts, "|") != strings.Join(m.receipts, "|") {
			b.fail("receipts", fmt.Sprintf("receipts %q, expected %q", rcpts, m.receipts), map[string]any{"client": m.c.name, "sent": tail(m.hist, 12), "ended": m.c.isEnded()})
			return
		}
		b.r.Count("receipts_checked", len(rcpts))
		if m.expErr {
			if errSeen != 1 {
				b.fail("no-error", "a refused frame was not answered with ERROR", map[string]any{"client": m.c.name, "sent": tail(m.hist, 12), "got": fmt.Sprint(got)})
				return
			}
			b.r.Count("errors_checked", 1)
		}
		if m.expErr || m.mayErr {
			if !m.c.isEnded() || m.c.srv.closeCount.Load() == 0 {
				b.fail("not-closed", "the connection stayed open after an invalid frame", map[string]any{"client": m.c.name, "sent": tail(m.hist, 12)})
				return
			}
		} else if m.alive && m.c.isEnded() {
			b.fail("dropped", "the server closed the connection of a well-behaved client", map[string]any{"client": m.c.name, "sent": tail(m.hist, 12), "err": fmt.Sprint(m.c.err)})
			return
		}
		// topics: exactly the expected messages in order, on exactly the expected subscriptions
		for s, want := range m.topicExp {
			if msgIDs(topicGot[s]) != msgIDs(want) {
				b.fail("topic", fmt.Sprintf("topic subscription got [%s], must get [%s]", msgIDs(topicGot[s]), msgIDs(want)), map[string]any{"client": m.c.name, "sub": s.id, "dest": s.dest})
				return
			}
			b.r.Count("topic_deliveries_checked", len(want))
			delete(topicGot, s)
		}
		for s, x := range topicGot {
			if strings.HasPrefix(msgIDs(m.topicMay[s])+" ", msgIDs(x)+" ") {
				continue
			}
			b.fail("topic-extra", fmt.Sprintf("topic subscription got [%s] but nothing was due", msgIDs(x)), map[string]any{"client": m.c.name, "sub": s.id, "dest": s.dest})
			return
		}
	}
	dests := map[string]bool{}
	for d := range b.q {
		dests[d] = true
	}
	for d := range perQ {
		dests[d] = true
	}
	for _, d := range sortedKeys(dests) {
		if !b.verifyQueue(d, perQ[d]) {
			return
		}
	}
	if b.w.store != nil && b.checkStore && !b.verifyStore() {
		return
	}
	b.multi, b.float, b.loose = false, map[*mMsg]bool{}, map[string]bool{}
	for _, m := range b.cl {
		m.receipts, m.expErr, m.mayErr, m.errRcpt = nil, false, false, ""
		m.topicExp = map[*mSub][]*mMsg{}
		m.active = map[*mSub]bool{}
		for _, s := range m.subs {
			m.active[s] = true
		}
	}
	// forget dead clients
	var live []*mClient
	for _, m := range b.cl {
		if m.alive {
			live = append(live, m)
		} else {
			b.r.Count("connections_ended", 1)
		}
	}
	b.cl = live
	b.r.Count("messages_delivered", nmsgs)
}

// verifyStore: at rest the storage holds exactly the messages that no consumer holds, in queue order, intact.
func (b *broker) verifyStore() bool {
	s := b.w.store
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.started != 1 {
		b.fail("storage-start", fmt.Sprintf("the queue storage was started %d times", s.started), nil)
		return false
	}
	dests := map[string]bool{}
	for d := range b.q {
		dests[d] = true
	}
	for d := range s.live {
		dests[d] = true
	}
	if s.early.Load() > 0 || s.overlap.Load() > 0 || s.started != 1 {
		b.fail("storage-serial", fmt.Sprintf("queue storage: started %d times, %d calls before Start, %d overlapping calls", s.started, s.early.Load(), s.overlap.Load()), nil)
		return false
	}
	if s.order != "" {
		b.fail("storage-order", s.order, nil)
		return false
	}
	for d := range dests {
		var got []string
		for _, f := range s.live[d] {
			if f == nil {
				b.fail("storage-nil", "a nil frame was stored", d)
				return false
			}
			id := f.Header.Get("x-id")
			got = append(got, id)
			m := b.msgs[id]
			if m == nil {
				b.fail("storage-content", "a message nobody sent is in the storage", map[string]any{"queue": d, "id": id})
				return false
			}
			lf := fromLib(f)
			lf.H = append(lf.H, [2]string{"subscription", "?"}, [2]string{"message-id", "?"})
			if diff := contentDiff(stripAck(lf), m, &mSub{id: lf.val("subscription"), ack: "auto"}); diff != "" || f.Header.Get("destination") != d {
				b.fail("storage-content", "a stored message differs from what was sent: "+diff, map[string]any{"queue": d, "id": id})
				return false
			}
			b.r.Count("stored_messages_checked", 1)
		}
		want := b.queue(d).groups
		k := 0
		ok := true
		for _, g := range want {
			set := map[string]bool{}
			for _, m := range g {
				set[m.id] = true
			}
			for range g {
				if k >= len(got) || !set[got[k]] {
					ok = false
					break
				}
				delete(set, got[k])
				k++
			}
		}
		if !ok || k != len(got) {
			var ws []string
			for _, g := range want {
				ws = append(ws, "("+msgIDs(g)+")")
			}
			b.fail("storage-holds", "the storage does not hold exactly the messages no consumer has", map[string]any{"queue": d, "stored": got, "expected": ws})
			return false
		}
	}
	b.r.Count("storage_states_checked", 1)
	return true
}

func stripAck(f *F) *F {
	g := &F{Cmd: f.Cmd, Body: f.Body}
	for _, h := range f.H {
		if h[0] != "ack" {
			g.H = append(g.H, h)
		}
	}
	return g
}

func tail(x []string, n int) []string {
	if len(x) > n {
		return x[len(x)-n:]
	}
	return x
}

func msgIDs(x []*mMsg) string {
	var s []string
	for _, m := range x {
		s = append(s, m.id)
	}
	return strings.Join(s, " ")
}

func (b *broker) verifyQueue(d string, ds []qDelivery) bool {
	x := b.queue(d)
	pos := map[*mMsg]int{}
	flat := []*mMsg{}
	for gi, g := range x.groups {
		for _, m := range g {
			pos[m] = gi
			flat = append(flat, m)
		}
	}
	state := func() any {
		var subs []string
		for _, m := range b.cl {
			for _, s := range m.subs {
				if s.dest == d {
					o := "-"
					if s.out != nil {
						o = s.out.id
					}
					subs = append(subs, fmt.Sprintf("%s/%s ack=%s holds=%s", m.c.name, s.id, s.ack, o))
				}
			}
		}
		var dl []string
		for _, v := range ds {
			dl = append(dl, fmt.Sprintf("%s->%s/%s", v.msg.id, v.m.c.name, v.s.id))
		}
		sort.Strings(subs)
		return map[string]any{"queue": d, "pending before": msgIDs(flat), "delivered": dl, "subscriptions": subs}
	}
	seen := map[*mMsg]bool{}
	taken := map[int]int{}
	lastPos := map[*mSub]int{}
	for _, v := range ds {
		if !v.m.alive && b.multi && v.s.ack != "auto" {
			continue // the consumer is gone, the message is due again
		}
		p, ok := pos[v.msg]
		if !ok || seen[v.msg] {
			switch {
			case seen[v.msg]:
				b.fail("queue-duplicate", "a queue message was delivered twice", state())
			case v.msg.settled:
				b.fail("redelivered-acked", "an acknowledged message was delivered again", state())
			default:
				b.fail("queue-not-pending", "a queue message was delivered that was not waiting in this queue", state())
			}
			return false
		}
		seen[v.msg] = true
		taken[p]++
		if b.loose[d] || b.float[v.msg] {
		} else if lp, ok := lastPos[v.s]; ok && lp > p {
			b.fail("queue-order", "a consumer got queue messages out of order", state())
			return false
		} else {
			lastPos[v.s] = p
		}
		if v.s.ack != "auto" {
			if v.s.out != nil {
				b.fail("two-outstanding", "a subscription got a message while another one was unacknowledged", state())
				return false
			}
			v.s.out, v.s.outF = v.msg, v.f
		} else {
			v.msg.settled = true
		}
		v.s.past = append(v.s.past, v.f)
	}
	// the delivered messages must be the first ones of the queue
	short := -1
	for gi, g := range x.groups {
		if b.loose[d] || (len(g) > 0 && b.float[g[0]]) {
			continue
		}
		if short >= 0 && taken[gi] > 0 {
			b.fail("queue-order", "a queue handed out a later message before an earlier one", state())
			return false
		}
		if taken[gi] < len(g) && short < 0 {
			short = gi
		}
	}
	var rest [][]*mMsg
	for _, g := range x.groups {
		var r []*mMsg
		for _, m := range g {
			if !seen[m] {
				r = append(r, m)
			}
		}
		if len(r) > 0 {
			rest = append(rest, r)
		}
	}
	if b.loose[d] && len(rest) > 0 {
		var all []*mMsg
		for _, g := range rest {
			all = append(all, g...)
		}
		rest = [][]*mMsg{all}
	}
	x.groups = rest
	if len(rest) > 0 {
		for _, m := range b.cl {
			if !m.alive {
				continue
			}
			for _, s := range m.subs {
				if s.dest == d && s.out == nil {
					b.fail("queue-stuck", "a queue keeps a message although a subscription is ready for it", state())
					return false
				}
			}
		}
	}
	b.r.Count("queue_deliveries_checked", len(ds))
	return true
}

// ---- step generation

func (b *broker) pick(rng *rand.Rand) string {
	tot := 0
	ks := sortedKeys(b.prof.weights)
	for _, k := range ks {
		tot += b.prof.weights[k]
	}
	n := rng.Intn(tot)
	for _, k := range ks {
		n -= b.prof.weights[k]
		if n < 0 {
			return k
		}
	}
	return ks[0]
}

func (b *broker) dest(rng *rand.Rand) string {
	if len(b.prof.topics) > 0 && (len(b.prof.queues) == 0 || rng.Intn(2) == 0) {
		return b.prof.topics[rng.Intn(len(b.prof.topics))]
	}
	if n := len(b.prof.queues); n > 10 && rng.Intn(2) == 0 {
		return b.prof.queues[rng.Intn(3)]
	}
	return b.prof.queues[rng.Intn(len(b.prof.queues))]
}

func (b *broker) message(rng *rand.Rand, m *mClient, dest string) *F {
	b.nmsg++
	id := fmt.Sprintf("m%d", b.nmsg)
	f := mk("SEND", "destination", dest)
	if b.prof.bodies {
		f.Body = randBody(rng, bodySize(rng), false)
		if rng.Intn(2) == 0 {
			f.Body = randBody(rng, bodySize(rng), true)
			f.H = append(f.H, [2]string{"content-length", fmt.Sprint(len(f.Body))})
		}
		nh := rng.Intn(5)
		if rng.Intn(60) == 0 {
			nh = 20 + rng.Intn(100)
		}
		for k := nh; k > 0; k-- {
			n := randName(rng)
			switch n {
			case "receipt", "destination", "transaction":
				continue
			}
			f.H = append(f.H, [2]string{n, longText(rng, 4)})
		}
		switch rng.Intn(10) {
		case 0:
			f.H = append(f.H, [2]string{"subscription", "evil"}, [2]string{"message-id", "7"})
		case 1:
			f.H = append(f.H, [2]string{"ack", "client"}, [2]string{"id", "99"})
		case 2:
			f.H = append(f.H, [2]string{"content-type", "text/plain;charset=\"utf-8\""})
		case 3:
			f.H = append(f.H, [2]string{"dup", "1"}, [2]string{"dup", "2"})
		case 4: // names that mean something elsewhere, with any value
			for k := 1 + rng.Intn(3); k > 0; k-- {
				v := []string{"", "0", " ", "text/plain ", " a", "TEXT/PLAIN", "1.1", "/queue/a", "auto", "true"}[rng.Intn(10)]
				if rng.Intn(3) == 0 {
					v = randText(rng, 2)
				}
				f.H = append(f.H, [2]string{stockNames[rng.Intn(len(stockNames))], v})
			}
		}
	} else {
		f.Body = []byte(id)
		switch rng.Intn(24) {
		case 0:
			f.Body = nil
		case 1:
			f.Body = nil
			f.H = append(f.H, [2]string{"content-length", "0"})
		case 2:
			f.H = append(f.H, [2]string{"content-length", fmt.Sprint(len(f.Body))})
		case 3:
			f.H = append(f.H, [2]string{"content-type", "text/plain"})
		}
	}
	k := rng.Intn(len(f.H) + 1)
	f.H = append(f.H[:k:k], append([][2]string{{"x-id", id}}, f.H[k:]...)...)
	b.msgs[id] = &mMsg{id: id, sent: f, from: m.c, dest: dest}
	return f
}

var stockNames = []string{"content-type", "content-type", "content-encoding", "receipt-id", "version", "heart-beat", "login", "passcode", "session", "server", "host", "message",
	"accept-version", "selector", "priority", "expires", "persistent", "reply-to", "timestamp", "redelivered", "Content-Type", "Receipt", "Destination", "Transaction", "x-id-2", "reply_to", "correlation-id"}

func (b *broker) maybeReceipt(rng *rand.Rand, f *F) *F {
	if rng.Intn(100) < b.prof.rcptPct {
		b.nrcpt++
		id := fmt.Sprintf("r-%d", b.nrcpt)
		switch rng.Intn(8) {
		case 0:
			id = randText(rng, 4) // often empty
		case 1:
			id = randText(rng, 2) + id
		case 2:
			id = "again"
		case 3:
			if rng.Intn(6) == 0 {
				id = strings.Repeat(id+" ", 1+rng.Intn(2000)) + "."
			}
		}
		f.H = append(f.H, [2]string{"receipt", id})
	}
	return f
}

func randKeyOf[V any](rng *rand.Rand, m map[string]V) (string, bool) {
	ks := sortedKeys(m)
	if len(ks) == 0 {
		return "", false
	}
	return ks[rng.Intn(len(ks))], true
}

var subIDs = []string{"0", "1", "2", "sub-a", "s:b", "x y", "é", "", " 0", "0 ", "00", "Sub-a", "sub-", "sub-a" + strings.Repeat("b", 300), "sub-a" + strings.Repeat("b", 301)}

// almost is text that is nearly, but not, the given one.
func almost(rng *rand.Rand, s string) string {
	switch rng.Intn(7) {
	case 0:
		return " " + s
	case 1:
		return s + " "
	case 2:
		return s + "\n"
	case 3:
		return s + "x"
	case 4:
		if len(s) > 1 {
			return s[:len(s)-1]
		}
	case 5:
		if t := strings.ToUpper(s); t != s {
			return t
		}
	}
	return "\t" + s
}

// invalid frames: each must be refused with ERROR, inside a transaction as well, and at once.
func (b *broker) invalid(rng *rand.Rand, m *mClient) *F {
	f := b.invalid1(rng, m)
	if _, has := f.get("transaction"); !has && rng.Intn(3) == 0 {
		switch f.Cmd {
		case "BEGIN", "COMMIT", "ABORT":
		default:
			if t, ok := randKeyOf(rng, m.tx); ok {
				f.H = append(f.H, [2]string{"transaction", t})
				b.r.Count("invalid_in_transaction", 1)
			}
		}
	}
	if rng.Intn(6) == 0 {
		switch f.Cmd {
		case "CONNECT", "STOMP", "CONNECTED":
		default:
			f.H = append(f.H, [2]string{"x-" + randName(rng), randText(rng, 3)})
		}
	}
	return f
}

func (b *broker) invalid1(rng *rand.Rand, m *mClient) *F {
	for {
		switch rng.Intn(20) {
		case 0:
			return mk("CONNECT", "accept-version", "1.2", "host", "h")
		case 1:
			return mk("STOMP", "accept-version", "1.1,1.2", "host", "h")
		case 2:
			return mk("MESSAGE", "destination", b.dest(rng), "message-id", "1", "subscription", "0").with([]byte("x"))
		case 3:
			return mk("RECEIPT", "receipt-id", "1")
		case 4:
			return mk("ERROR", "message", "oops")
		case 5:
			return mk("CONNECTED", "version", "1.2")
		case 6:
			return mk("SEND", "content-type", "text/plain").with([]byte("no destination"))
		case 7:
			return mk("SUBSCRIBE", "destination", b.dest(rng))
		case 8:
			return mk("SUBSCRIBE", "id", "nodest")
		case 9:
			return mk("SUBSCRIBE", "id", "badack", "destination", b.dest(rng), "ack", []string{"", "Auto", "client_individual", "nack", "individual"}[rng.Intn(5)])
		case 10:
			if id, ok := randKeyOf(rng, m.subs); ok {
				return mk("SUBSCRIBE", "id", id, "destination", b.dest(rng), "ack", "auto")
			}
		case 11:
			if id, ok := randKeyOf(rng, m.subs); ok && rng.Intn(2) == 0 {
				if id = almost(rng, id); m.subs[id] == nil {
					return mk("UNSUBSCRIBE", "id", id)
				}
			}
			return mk("UNSUBSCRIBE", "id", "never-subscribed")
		case 12:
			return mk("UNSUBSCRIBE", "destination", "/queue/a")
		case 13:
			return mk([]string{"ACK", "NACK"}[rng.Intn(2)], "subscription", "0")
		case 14:
			f := mk([]string{"ACK", "NACK"}[rng.Intn(2)], "subscription", "0")
			v := []string{"abc", "-1", "", "1.5", "18446744073709551616"}[rng.Intn(5)]
			if m.c.version == "1.2" {
				f.H = append(f.H, [2]string{"id", v})
			} else {
				f.H = append(f.H, [2]string{"message-id", v})
			}
			return f
		case 15:
			return mk([]string{"BEGIN", "COMMIT", "ABORT"}[rng.Intn(3)], "tx", "1")
		case 16:
			if t, ok := randKeyOf(rng, m.tx); ok {
				return mk("BEGIN", "transaction", t)
			}
		case 17:
			if t, ok := randKeyOf(rng, m.tx); ok && rng.Intn(2) == 0 {
				t = almost(rng, t)
				if _, ok := m.tx[t]; !ok {
					return mk([]string{"COMMIT", "ABORT"}[rng.Intn(2)], "transaction", t)
				}
			}
			return mk([]string{"COMMIT", "ABORT"}[rng.Intn(2)], "transaction", "unknown-tx")
		case 18:
			f := b.message(rng, m, b.dest(rng))
			u := "unknown-tx"
			if t, ok := randKeyOf(rng, m.tx); ok && rng.Intn(2) == 0 {
				t = almost(rng, t)
				if _, ok := m.tx[t]; !ok {
					u = t
				}
			}
			f.H = append(f.H, [2]string{"transaction", u})
			return f
		case 19:
			f := mk([]string{"ACK", "NACK"}[rng.Intn(2)], "transaction", "unknown-tx", "subscription", "0")
			if m.c.version == "1.2" {
				f.H = append(f.H, [2]string{"id", "1"})
			} else {
				f.H = append(f.H, [2]string{"message-id", "1"})
			}
			return f
		}
	}
}

var malformedBytes = []string{"GARBAGE\n\n\x00", "SEND\nnocolon\n\n\x00", "SEND\n:x\n\n\x00", "SEND\ndestination:/queue/a\ncontent-length:x\n\nabc\x00",
	"SEND\ndestination:/queue/a\ncontent-length:2\n\nabcdef\x00", "send\ndestination:/queue/a\n\nhello\x00", "\x00", "\x00\x00\x00SEND\n\n\x00",
	"GET / HTTP/1.1\r\nHost: x\r\n\r\n", "SEND\ndestination:/queue/a\ncontent-length:99999999999\n\nabc\x00", "\x16\x03\x01\x02\x00\n", "SEND \n\n\x00"}

// step performs one random step of a live client and checks its consequences.
func (b *broker) step(rng *rand.Rand, i int) {
	if len(b.cl) == 0 || (len(b.cl) < b.prof.clients && rng.Intn(4) == 0) {
		m := b.connectClient(fmt.Sprintf("c%d", i))
		b.sig = append(b.sig, "connect")
		if m.c.version == "" {
			b.failed = true
			return
		}
	}
	m := b.cl[rng.Intn(len(b.cl))]
	op := b.pick(rng)
	var fs []*F
	add := func(f *F) { fs = append(fs, b.maybeReceipt(rng, f)) }
	inTx := func(f *F) *F {
		if t, ok := randKeyOf(rng, m.tx); ok {
			f.H = append(f.H, [2]string{"transaction", t})
		}
		return f
	}
	ackable := func() *mSub {
		var c []*mSub
		for _, id := range sortedKeys(m.subs) {
			if s := m.subs[id]; s.out != nil {
				c = append(c, s)
			}
		}
		if len(c) == 0 {
			return nil
		}
		return c[rng.Intn(len(c))]
	}
	switch op {
	case "send":
		n := 1
		if b.prof.burst > 1 && rng.Intn(3) == 0 {
			n = 1 + rng.Intn(b.prof.burst)
		}
		d := b.dest(rng)
		for k := 0; k < n; k++ {
			if rng.Intn(5) == 0 {
				d = b.dest(rng)
			}
			add(b.message(rng, m, d))
		}
	case "deep": // more messages waiting than anybody planned for
		d := b.dest(rng)
		for k := 500 + rng.Intn(4000); k > 0; k-- {
			fs = append(fs, b.message(rng, m, d))
		}
		b.r.Count("deep_queues", 1)
	case "txsend":
		n := 1 + rng.Intn(3)
		for k := 0; k < n; k++ {
			add(inTx(b.message(rng, m, b.dest(rng))))
		}
	case "subscribe":
		id := subIDs[rng.Intn(len(subIDs))]
		if m.subs[id] != nil {
			return
		}
		f := mk("SUBSCRIBE", "id", id, "destination", b.dest(rng))
		if a := b.prof.ackMode[rng.Intn(len(b.prof.ackMode))]; a != "" {
			f.H = append(f.H, [2]string{"ack", a})
		}
		add(f)
	case "manysubs": // a great many subscriptions on one connection
		n := 10 + rng.Intn(60)
		for k := 0; k < n; k++ {
			f := mk("SUBSCRIBE", "id", fmt.Sprintf("s%d-%d", i, k), "destination", b.dest(rng))
			if a := b.prof.ackMode[rng.Intn(len(b.prof.ackMode))]; a != "" {
				f.H = append(f.H, [2]string{"ack", a})
			}
			fs = append(fs, f)
		}
	case "unsubscribe":
		id, ok := randKeyOf(rng, m.subs)
		if !ok {
			return
		}
		f := mk("UNSUBSCRIBE", "id", id)
		add(f)
	case "ack", "nack", "txack", "txnack":
		s := ackable()
		if s == nil {
			return
		}
		cmd := "ACK"
		if strings.HasSuffix(op, "nack") {
			cmd = "NACK"
		}
		f := ackFrame(cmd, m.c.version, s.outF)
		if strings.HasPrefix(op, "tx") {
			f = inTx(f)
		}
		add(f)
		if rng.Intn(6) == 0 && !strings.HasPrefix(op, "tx") { // the same again: must have no effect
			add(ackFrame("ACK", m.c.version, s.outF))
		}
	case "bounce":
		if s := ackable(); s != nil {
			b.sig = append(b.sig, "bounce")
			b.bounce(rng, s.out, 5+rng.Intn(60))
			b.r.Count("op_bounce", 1)
		}
		return
	case "oldack": // an ACK or NACK for something that is not outstanding: no effect
		var fsx []*F
		for _, id := range sortedKeys(m.subs) {
			for _, f := range m.subs[id].past {
				if _, ok := f.get("ack"); (ok || m.c.version != "1.2") && (m.subs[id].outF == nil || ackValue(m, f) != ackValue(m, m.subs[id].outF)) {
					fsx = append(fsx, f)
				}
			}
		}
		if len(fsx) == 0 {
			return
		}
		add(ackFrame([]string{"ACK", "NACK"}[rng.Intn(2)], m.c.version, fsx[rng.Intn(len(fsx))]))
	case "highack": // an id that does not exist (yet)
		f := mk("ACK", "subscription", "0")
		v := fmt.Sprint(1000000 + rng.Intn(1000))
		if s := ackable(); s != nil && rng.Intn(2) == 0 { // a number that is not that of an outstanding message, but looks a bit like it
			if id, err := strconv.ParseUint(ackValue(m, s.outF), 10, 32); err == nil {
				v = []string{fmt.Sprint(id + 1<<32), fmt.Sprint(id + 1<<63), "0" + strconv.FormatUint(id, 8), "-" + fmt.Sprint(id), "+" + fmt.Sprint(id), fmt.Sprint(id) + ".0", " " + fmt.Sprint(id), "0x" + strconv.FormatUint(id, 16)}[rng.Intn(8)]
				if n, err := strconv.ParseUint(v, 10, 64); err == nil && n != id+1<<32 && n != id+1<<63 {
					for _, o := range m.subs { // read as decimal it must not be another one's, either
						if o.out != nil {
							if x, err := strconv.ParseUint(ackValue(m, o.outF), 10, 64); err != nil || x == n {
								v = "1000000"
							}
						}
					}
				}
			}
		}
		if rng.Intn(2) == 0 {
			f.Cmd = "NACK"
		}
		if m.c.version == "1.2" {
			f.H = append(f.H, [2]string{"id", v})
		} else {
			f.H = append(f.H, [2]string{"message-id", v})
		}
		add(f)
	case "begin":
		t := []string{"t1", "t2", "t3", "tx:4"}[rng.Intn(4)]
		if rng.Intn(6) == 0 {
			t = []string{"", "T1", " t1", "t1 ", "t", "t11", "0", "t1" + strings.Repeat("1", 300)}[rng.Intn(8)]
		}
		if _, ok := m.tx[t]; ok {
			return
		}
		add(mk("BEGIN", "transaction", t))
	case "manytx": // a great many transactions open at a time
		n := 20 + rng.Intn(200)
		for k := 0; k < n; k++ {
			fs = append(fs, mk("BEGIN", "transaction", fmt.Sprintf("%d-%d", i, k)))
			if rng.Intn(4) == 0 {
				f := b.message(rng, m, b.dest(rng))
				f.H = append(f.H, [2]string{"transaction", fmt.Sprintf("%d-%d", i, rng.Intn(k+1))})
				fs = append(fs, f)
			}
		}
		if rng.Intn(4) > 0 {
			for _, k := range rng.Perm(n) {
				add(mk([]string{"COMMIT", "ABORT"}[rng.Intn(2)], "transaction", fmt.Sprintf("%d-%d", i, k)))
			}
		}
	case "commit", "abort":
		t, ok := randKeyOf(rng, m.tx)
		if !ok {
			return
		}
		add(mk(strings.ToUpper(op), "transaction", t))
	case "txburst": // a whole transaction in one go
		t := fmt.Sprintf("b%d", i)
		add(mk("BEGIN", "transaction", t))
		n := 1 + rng.Intn(5)
		if rng.Intn(12) == 0 { // a big one
			n = 20 + rng.Intn(300)
			b.r.Count("big_transactions", 1)
		}
		at := rng.Intn(2*n + 1) // where something is acknowledged, perhaps
		if rng.Intn(2) == 0 {
			at = n
		}
		for k := 0; k <= n; k++ {
			if s := ackable(); s != nil && k == at {
				f := ackFrame([]string{"ACK", "NACK"}[rng.Intn(2)], m.c.version, s.outF)
				f.H = append(f.H, [2]string{"transaction", t})
				add(f)
			}
			if k == n {
				break
			}
			f := b.message(rng, m, b.dest(rng))
			if rng.Intn(4) != 0 {
				f.H = append(f.H, [2]string{"transaction", t})
			}
			add(f)
		}
		switch rng.Intn(4) {
		case 0:
			add(mk("ABORT", "transaction", t))
		case 1, 2:
			add(mk("COMMIT", "transaction", t))
		}
	case "invalid":
		for k := rng.Intn(3); k > 0; k-- {
			add(b.message(rng, m, b.dest(rng)))
		}
		add(b.invalid(rng, m))
		for k := rng.Intn(3); k > 0; k-- { // must have no effect any more
			add(b.message(rng, m, b.dest(rng)))
		}
	case "malformed":
		bs := malformedBytes[rng.Intn(len(malformedBytes))]
		b.logf("%s: raw %q", m.c.name, bs)
		m.hist = append(m.hist, bs)
		b.sig = append(b.sig, "malformed")
		b.gone(m)
		m.mayErr = true
		// followed by something that must have no effect
		_ = m.c.raw(append([]byte(bs), mk("SEND", "destination", b.dest(rng), "x-id", "evil").enc()...))
		b.r.Count("op_malformed", 1)
		b.verify()
		return
	case "disconnect":
		add(mk("DISCONNECT"))
		if rng.Intn(2) == 0 && len(fs[0].H) == 0 {
			fs[0].H = append(fs[0].H, [2]string{"receipt", "bye"})
		}
	case "drop":
		how := rng.Intn(3)
		b.logf("%s: drop %d", m.c.name, how)
		b.sig = append(b.sig, "drop")
		b.gone(m)
		m.c.drop(how)
		m.c.gone = true
		b.r.Count("op_drop", 1)
		b.verify()
		return
	case "sleep":
		time.Sleep(time.Duration(rng.Intn(5000)) * time.Millisecond)
		b.sig = append(b.sig, "sleep")
		b.verify()
		return
	}
	if len(fs) == 0 {
		return
	}
	b.do(rng, m, op, fs)
	b.r.Count("op_"+op, 1)
	if op == "disconnect" && rng.Intn(2) == 0 {
		// the client may take its time to close; meanwhile it must get nothing
		b.verify()
		b.checkSilent(rng, m)
		m.c.drop(rng.Intn(3))
		b.w.quiesce()
		return
	}
	b.verify()
	if op == "disconnect" {
		m.c.drop(rng.Intn(3))
	}
}

// bounce returns the same message to its queue again and again.
func (b *broker) bounce(rng *rand.Rand, out *mMsg, n int) {
	for k := 0; k < n && !b.failed; k++ {
		var m *mClient
		var s *mSub
		for _, x := range b.cl {
			for _, id := range sortedKeys(x.subs) {
				if x.subs[id].out == out {
					m, s = x, x.subs[id]
				}
			}
		}
		if m == nil {
			return
		}
		var fs []*F
		switch rng.Intn(8) {
		case 0:
			fs = []*F{mk("UNSUBSCRIBE", "id", s.id), mk("SUBSCRIBE", "id", s.id, "destination", s.dest, "ack", s.ack)}
		case 1:
			fs = []*F{mk("UNSUBSCRIBE", "id", s.id)}
			b.do(rng, m, "bounce", fs)
			b.verify()
			fs = []*F{mk("SUBSCRIBE", "id", s.id, "destination", s.dest, "ack", s.ack)}
		default:
			fs = []*F{b.maybeReceipt(rng, ackFrame("NACK", m.c.version, s.outF))}
		}
		b.do(rng, m, "bounce", fs)
		b.verify()
		b.r.Count("bounces", 1)
	}
}

// do sends the frames and applies them to the model.
func (b *broker) do(rng *rand.Rand, m *mClient, op string, fs []*F) {
	alive := true
	b.multi = len(fs) > 1
	for _, f := range fs {
		b.multi = b.multi || f.Cmd == "COMMIT"
	}
	for _, f := range fs {
		b.logf("%s: %s", m.c.name, f)
		m.hist = append(m.hist, f.String())
		b.sig = append(b.sig, f.Cmd+f.val("destination")+f.val("ack"))
		if alive {
			alive = b.apply(m, f)
		}
	}
	if rng.Intn(2) == 0 {
		_ = m.c.send(fs...)
	} else {
		for _, f := range fs {
			_ = m.c.send(f)
			if b.w.jitter > 0 && rng.Intn(2) == 0 {
				b.w.pause()
			}
		}
	}
}

// checkSilent: after a DISCONNECT was confirmed nothing is sent to the client any more, and nothing goes to its
// subscriptions, although it has not closed its socket yet.
func (b *broker) checkSilent(rng *rand.Rand, m *mClient) {
	if len(b.cl) == 0 || b.failed {
		return
	}
	o := b.cl[rng.Intn(len(b.cl))]
	f := b.message(rng, o, b.dest(rng))
	b.apply(o, f)
	b.logf("%s: %s (while %s has disconnected but not closed)", o.c.name, f, m.c.name)
	_ = o.c.send(f)
	b.verify()
	if x := m.c.take(); len(x) > 0 {
		b.fail("after-disconnect", "a frame was sent after the receipt for DISCONNECT", map[string]any{"client": m.c.name, "frame": x[0].F.String()})
	}
	b.r.Count("silent_after_disconnect", 1)
}

// finish drains every queue through a fresh consumer: whatever the model still holds must come out, in order.
func (b *broker) finish() {
	if b.failed {
		return
	}
	// all remaining clients vanish, so everything they hold must come back
	for _, m := range append([]*mClient{}, b.cl...) {
		if b.failed {
			return
		}
		b.gone(m)
		m.c.drop(0)
		b.verify()
	}
	if b.failed {
		return
	}
	m := b.connectClient("drain")
	if m.c.version == "" {
		b.failed = true
		return
	}
	for i, d := range sortedKeys(b.q) {
		f := mk("SUBSCRIBE", "id", fmt.Sprint("d", i), "destination", d, "ack", "auto")
		b.apply(m, f)
		b.logf("drain: %s", f)
		_ = m.c.send(f)
		b.verify()
	}
	if b.failed {
		return
	}
	for d, x := range b.q {
		if x.len() > 0 {
			b.fail("lost", "messages never came out of a queue", map[string]any{"queue": d, "left": x.len()})
		}
	}
	b.r.Count("drains", 1)
}

// stepwise runs n model-checked histories with the given profile.
func (r *R) stepwise(label string, n int, mkProf func(rng *rand.Rand) *profile, o srvOpt) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		p := mkProf(rng)
		if len(p.queues) > 1 && rng.Intn(10) == 0 {
			// many queues, most of them hardly used
			p.queues = append([]string{}, p.queues...)
			for j := 15 + rng.Intn(30); j > 0; j-- {
				p.queues = append(p.queues, fmt.Sprintf("/queue/n%d", j))
			}
			p.steps += 60
			if rng.Intn(2) == 0 {
				p.clients += 8
			}
			r.Count("many_queues", 1)
		}
		r.inServer(rng, o, func(w *srvWorld) {
			b := newBroker(w, p)
			b.checkStore = o.recorded
			for s := 0; s < p.steps && !b.failed; s++ {
				b.step(rng, s)
			}
			b.finish()
			if !b.failed && o.leftovers {
				if what, d := w.leftovers(rng); what != "" {
					b.fail("leftovers", what, d)
				}
				r.Count("leftover_checks", 1)
			}
			r.Count("steps", len(b.log))
			dl := 0
			for _, m := range b.msgs {
				dl += m.deliver
			}
			r.Eval(strings.Join(b.sig, ","), dl > 0)
			if i < 2 {
				r.Sample(label, tail(b.log, 12))
			}
		})
	})
}
