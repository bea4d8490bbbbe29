package harness

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// stalledConsumer: a consumer with several subscriptions stops reading, so that the server gets stuck writing to it with
// messages already taken from their queues for its other subscriptions; then the consumer vanishes. Every message that
// was not on the wire has to come back ahead of what never left the queue, whatever the ack mode.
func (r *R) stalledConsumer(rng *rand.Rand, w *srvWorld) {
	p, c := w.client("p"), w.client("c")
	nq := 1 + rng.Intn(3)
	queues := make([]string, nq)
	for i := range queues {
		queues[i] = fmt.Sprintf("/queue/s%d", i)
	}
	type subT struct{ q, mode string }
	var subs []subT
	for i, n := 0, 1+rng.Intn(8); i < n; i++ {
		s := subT{queues[rng.Intn(nq)], []string{"auto", "auto", "client", "client-individual"}[rng.Intn(4)]}
		subs = append(subs, s)
		_ = c.send(mk("SUBSCRIBE", "id", fmt.Sprint(i), "destination", s.q, "ack", s.mode))
	}
	_ = c.send(mk("SUBSCRIBE", "id", "t", "destination", "/topic/stall"))
	w.quiesce()
	seq := 0
	sent := map[string][]string{}
	send := func(q string) string {
		seq++
		id := fmt.Sprint("m", seq)
		kv := []string{"destination", q, "x-id", id}
		if rng.Intn(6) == 0 {
			kv = append(kv, "message-id", "user-chosen")
		}
		_ = p.send(mk("SEND", kv...).with([]byte(id)))
		sent[q] = append(sent[q], id)
		return id
	}
	// some subscriptions hold a message already
	front := map[string]map[string]bool{}
	gone := map[string]bool{}
	for _, q := range queues {
		front[q] = map[string]bool{}
	}
	for k := rng.Intn(4); k > 0; k-- {
		send(queues[rng.Intn(nq)])
	}
	w.quiesce()
	waiting := map[string]int{}
	for _, s := range subs {
		waiting[s.q]++
	}
	for l := c.take(); len(l) > 0; l = c.take() {
		for _, g := range l {
			if g.F.Cmd != "MESSAGE" {
				continue
			}
			var i int
			_, _ = fmt.Sscan(g.F.val("subscription"), &i)
			id := g.F.val("x-id")
			s := subs[i]
			switch {
			case s.mode == "auto":
				gone[id] = true
			case rng.Intn(3) == 0:
				_ = c.send(ackFrame("ACK", c.version, g.F))
				gone[id] = true
			default:
				front[s.q][id] = true
				waiting[s.q]--
			}
		}
		w.quiesce()
	}
	before := map[string]int{}
	for _, q := range queues {
		before[q] = len(sent[q])
		for _, id := range sent[q] {
			if !gone[id] && !front[q][id] && waiting[q] > 0 {
				r.Fail("idle-with-messages", "a message waits although the queue has a waiting consumer", map[string]any{"queue": q, "message": id, "sent": sent, "subscriptions": fmt.Sprint(subs)})
				return
			}
		}
	}
	c.c.SetInCap(1 + rng.Intn(100))
	c.c.Pause(true)
	body := []byte(strings.Repeat("x", 300+rng.Intn(3000)))
	_ = p.send(mk("SEND", "destination", "/topic/stall").with(body))
	w.quiesce()
	for k := rng.Intn(16); k > 0; k-- {
		send(queues[rng.Intn(nq)])
		if rng.Intn(3) == 0 {
			w.quiesce()
		}
	}
	for _, q := range queues {
		for _, id := range sent[q][before[q]:] {
			if waiting[q] > 0 {
				waiting[q]--
				front[q][id] = true
				r.Count("taken_but_not_written", 1)
			}
		}
	}
	if rng.Intn(2) == 0 { // or it unsubscribes first (which the server cannot see while it is stuck)
		for i := range subs {
			if rng.Intn(2) == 0 {
				_ = c.send(mk("UNSUBSCRIBE", "id", fmt.Sprint(i)))
			}
		}
	}
	w.quiesce()
	c.drop(rng.Intn(2))
	w.quiesce()
	n := w.client("n")
	for i, q := range queues {
		_ = n.send(mk("SUBSCRIBE", "id", fmt.Sprint(i), "destination", q))
	}
	w.quiesce()
	got := map[string][]string{}
	for _, g := range n.take() {
		if g.F.Cmd == "MESSAGE" {
			got[g.F.val("destination")] = append(got[g.F.val("destination")], g.F.val("x-id"))
		}
	}
	total := 0
	for _, q := range queues {
		var want []string
		for _, id := range sent[q] {
			if !gone[id] && !front[q][id] {
				want = append(want, id)
			}
		}
		k := len(front[q])
		desc := map[string]any{"queue": q, "subscriptions": fmt.Sprint(subs), "sent": sent[q], "settled": sortedKeys(gone), "taken": sortedKeys(front[q]), "delivered": got[q]}
		if len(got[q]) != k+len(want) {
			r.Fail("stalled-count", fmt.Sprintf("%d messages came out of the queue after its consumer had vanished, %d are due", len(got[q]), k+len(want)), desc)
			return
		}
		head := append([]string{}, got[q][:k]...)
		sort.Strings(head)
		if fmt.Sprint(head) != fmt.Sprint(sortedKeys(front[q])) || fmt.Sprint(got[q][k:]) != fmt.Sprint(want) {
			r.Fail("stalled-order", "messages taken by a consumer that vanished were not redelivered ahead of the others", desc)
			return
		}
		total += k
	}
	r.Eval(fmt.Sprint(subs, sent, front), total > 0)
}
