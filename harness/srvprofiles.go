package harness

import (
	"math/rand"
)

func chance(rng *rand.Rand, p int) bool { return rng.Intn(100) < p }

// weights per kind of history
func wts(kv ...any) map[string]int {
	m := map[string]int{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}

var (
	qNames = []string{"/queue/a", "/queue/b", "/queue/c"}
	tNames = []string{"/topic/x", "/topic/y", "queue/a", "/Queue/a"}
	acks3  = []string{"", "auto", "client", "client-individual"}
	acksC  = []string{"client", "client-individual"}
)

func profTopic(rng *rand.Rand) *profile {
	return &profile{weights: wts("send", 40, "subscribe", 18, "unsubscribe", 6, "drop", 2, "disconnect", 2, "txburst", 4, "sleep", 1, "highack", 1, "manysubs", rng.Intn(3)/2),
		topics: []string{"/topic/x", "/topic/y", "/topic/z", "anything", "/QUEUE/a"}, clients: 4, steps: 30 + rng.Intn(40), burst: []int{1, 4, 12, 40}[rng.Intn(4)],
		ackMode: acks3, rcptPct: 10, bodies: rng.Intn(5) == 0}
}

func profQueue(rng *rand.Rand) *profile {
	return &profile{weights: wts("send", 40, "subscribe", 12, "unsubscribe", 6, "disconnect", 1, "txburst", 4, "sleep", 1, "oldack", 1, "deep", rng.Intn(12)/11),
		queues: append([]string{"/queue", "/queue/", "/queueing"}, qNames...)[rng.Intn(3):], topics: tNames[:rng.Intn(3)], clients: 4, steps: 30 + rng.Intn(40),
		burst: []int{1, 4, 12, 40}[rng.Intn(4)], ackMode: []string{"", "auto"}, rcptPct: 20, bodies: rng.Intn(8) == 0}
}

func profAck(rng *rand.Rand) *profile {
	return &profile{weights: wts("send", 30, "subscribe", 10, "unsubscribe", 5, "ack", 20, "nack", 10, "oldack", 5, "highack", 2, "drop", 4, "disconnect", 3, "sleep", 1, "manysubs", rng.Intn(3)/2, "bounce", rng.Intn(3), "deep", rng.Intn(20)/19),
		queues: qNames[:1+rng.Intn(3)], clients: 2 + rng.Intn(3), steps: 40 + rng.Intn(60), burst: []int{1, 4, 12}[rng.Intn(3)], ackMode: append([]string{"auto", "client", "client-individual"}, acksC...), rcptPct: 20}
}

func profTx(rng *rand.Rand) *profile {
	return &profile{weights: wts("send", 6, "txsend", 25, "txack", 10, "txnack", 6, "ack", 3, "nack", 2, "begin", 16, "commit", 9, "abort", 5, "txburst", 10, "subscribe", 10, "unsubscribe", 2, "drop", 2, "disconnect", 1, "invalid", 1, "manytx", rng.Intn(2)),
		queues: qNames[:2], topics: tNames[:1], clients: 3, steps: 50 + rng.Intn(50), burst: 3, ackMode: acks3, rcptPct: 20}
}

func profReceipt(rng *rand.Rand) *profile {
	p := profAny(rng)
	p.rcptPct = []int{50, 90, 100}[rng.Intn(3)]
	p.weights["invalid"] = 4
	p.weights["disconnect"] = 4
	return p
}

func profHostile(rng *rand.Rand) *profile {
	p := profAny(rng)
	p.weights["invalid"] = 15
	p.weights["malformed"] = 10
	p.weights["drop"] = 8
	p.weights["manytx"] = rng.Intn(2)
	p.bodies = rng.Intn(4) == 0
	return p
}

func profSubs(rng *rand.Rand) *profile {
	return &profile{weights: wts("send", 30, "subscribe", 25, "unsubscribe", 20, "ack", 6, "nack", 3, "invalid", 3, "drop", 2, "manysubs", rng.Intn(2)),
		queues: qNames[:2], topics: tNames[:2], clients: 3, steps: 40 + rng.Intn(60), burst: []int{1, 4, 20}[rng.Intn(3)], ackMode: acks3, rcptPct: 60}
}

func profContent(rng *rand.Rand) *profile {
	return &profile{weights: wts("send", 40, "txsend", 5, "begin", 3, "commit", 3, "txburst", 5, "subscribe", 20, "unsubscribe", 3, "ack", 12, "nack", 8, "drop", 2),
		queues: qNames[:2], topics: tNames[:2], clients: 4, steps: 30 + rng.Intn(30), burst: 4, ackMode: acks3, rcptPct: 30, bodies: true}
}

func profStore(rng *rand.Rand) *profile {
	p := profAny(rng)
	p.weights["drop"] = 5
	p.weights["nack"] = 8
	return p
}

func profAny(rng *rand.Rand) *profile {
	return &profile{weights: wts("send", 30, "txsend", 6, "txack", 3, "txnack", 2, "ack", 12, "nack", 6, "oldack", 2, "highack", 1, "begin", 5, "commit", 3, "abort", 2,
		"txburst", 5, "subscribe", 16, "unsubscribe", 6, "drop", 3, "disconnect", 2, "invalid", 1, "sleep", 1, "bounce", rng.Intn(5)/4),
		queues: qNames, topics: tNames[:2], clients: 4, steps: 40 + rng.Intn(60), burst: []int{1, 4, 20}[rng.Intn(3)], ackMode: acks3, rcptPct: 25}
}

func pickI(rng *rand.Rand, xs ...int) int { return xs[rng.Intn(len(xs))] }

func chaosBase(rng *rand.Rand) *chaosCfg {
	return &chaosCfg{queues: qNames[:1+rng.Intn(2)], topics: tNames[:1+rng.Intn(2)], producers: 1 + rng.Intn(4), perProducer: 10 + rng.Intn(50),
		consumers: 1 + rng.Intn(5), subsPer: 1 + rng.Intn(3), modes: []string{"auto", "client", "client-individual"}, batch: pickI(rng, 1, 3, 20),
		rcptPct: pickI(rng, 0, 10, 50), bodyMax: pickI(rng, 0, 20, 20, 9000), jitter: pickI(rng, 0, 0, 30, 200), inCap: pickI(rng, 0, 0, 64, 4096), lives: 1, late: rng.Intn(2) == 0}
}

func chaosTopic(rng *rand.Rand) *chaosCfg {
	c := chaosBase(rng)
	c.queues = c.queues[:rng.Intn(2)]
	c.unsubPct, c.endPct, c.lives, c.kills = pickI(rng, 0, 3, 10), pickI(rng, 0, 0, 3), 1+rng.Intn(3), pickI(rng, 0, 0, 2)
	c.prodDropPct = pickI(rng, 0, 30)
	c.consumers = 1 + rng.Intn(10)
	return c
}

func chaosQueue(rng *rand.Rand) *chaosCfg {
	c := chaosBase(rng)
	c.topics = c.topics[:rng.Intn(2)]
	c.gentle = true
	if rng.Intn(2) == 0 {
		c.modes = []string{"auto"}
	}
	return c
}

func chaosAck(rng *rand.Rand) *chaosCfg {
	c := chaosBase(rng)
	c.topics = c.topics[:rng.Intn(2)]
	c.nackPct, c.holdPct, c.unsubPct = pickI(rng, 0, 10, 30), pickI(rng, 0, 3, 10), pickI(rng, 0, 3, 15)
	c.endPct, c.lives, c.kills = pickI(rng, 0, 3, 10), 1+rng.Intn(5), pickI(rng, 0, 2, 6)
	c.prodDropPct = pickI(rng, 0, 0, 30)
	c.perProducer = 10 + rng.Intn(100)
	return c
}

func chaosTx(rng *rand.Rand) *chaosCfg {
	c := chaosBase(rng)
	c.txPct = pickI(rng, 10, 30, 60)
	c.prodDropPct = pickI(rng, 0, 30, 60)
	c.kills, c.lives = pickI(rng, 0, 2), 2
	return c
}

func chaosFlood(rng *rand.Rand) *chaosCfg {
	c := chaosBase(rng)
	c.producers, c.consumers = 2+rng.Intn(10), 2+rng.Intn(20)
	c.perProducer = pickI(rng, 50, 200, 400)
	c.batch = pickI(rng, 20, 100, 400)
	c.kills, c.lives, c.prodDropPct = pickI(rng, 2, 10, 20), 1+rng.Intn(3), pickI(rng, 0, 30, 60)
	c.nackPct, c.unsubPct, c.endPct, c.holdPct = pickI(rng, 0, 10), pickI(rng, 0, 5), pickI(rng, 0, 2), pickI(rng, 0, 2)
	c.rcptPct = pickI(rng, 0, 20)
	c.bodyMax = pickI(rng, 0, 50, 5000)
	return c
}

func chaosAny(rng *rand.Rand) *chaosCfg {
	switch rng.Intn(5) {
	case 0:
		return chaosTopic(rng)
	case 1:
		return chaosQueue(rng)
	case 2:
		return chaosAck(rng)
	case 3:
		return chaosTx(rng)
	}
	c := chaosFlood(rng)
	c.perProducer = 50
	return c
}

func (r *R) chaosCases(label string, n int, mkc func(*rand.Rand) *chaosCfg) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		cfg := mkc(rng)
		r.runChaos(rng, cfg, nil)
	})
}
