package harness

import "math/rand"

func init() {
	register("C09", checkC09)
	register("C10", checkC10)
	register("C11", checkC11)
	register("C12", checkC12)
	register("C13", checkC13)
	register("C14", checkC14)
	register("C15", checkC15)
	register("C16", checkC16)
	register("C17", checkC17)
	register("C19", checkC19)
	register("C20", checkC20)
}

func (r *R) clientAssume() {
	r.Assume("the peer of the client is a socket in memory driven by the harness")
	r.Assume("ids chosen by the application are unique and do not look like ids the library allocates")
	r.Assume("applications read from their subscriptions (at most 16 messages are left unread for long)")
	r.Assume("a body passed to a send is not modified afterwards")
}

func cliProf(kv ...any) func(*rand.Rand) map[string]int {
	base := wts("send", 6, "sendr", 4, "sub", 6, "unsub", 3, "msg", 12, "rcpt", 8, "ack", 5, "begin", 2, "txsend", 4, "txack", 2,
		"txend", 3, "hb", 1, "other", 1, "time", 2, "wake", 1, "end", 1, "disc", 0, "must", 0)
	for i := 0; i+1 < len(kv); i += 2 {
		base[kv[i].(string)] = kv[i+1].(int)
	}
	return func(*rand.Rand) map[string]int { return base }
}

func checkC09(r *R) {
	r.Rule(ruleCliModel + ruleCliConc)
	r.clientAssume()
	r.stallMonitor()
	r.cliStepwise("wire", r.N(3000, 60000), cliProf("send", 14, "end", 0))
	r.cliConcurrent("conc-wire", r.N(1200, 30000), ccProf("end-none", 30))
	r.cliCrossing("crossing", r.N(300, 8000))
	r.Require("crossings_blocked", 100)
	r.Require("frames_checked", 20000)
}

func checkC10(r *R) {
	r.Rule(ruleCliModel + ruleCliConc)
	r.clientAssume()
	r.stallMonitor()
	r.cliStepwise("confirm", r.N(3000, 60000), cliProf("sendr", 14, "rcpt", 12, "txend", 6, "begin", 4, "disc", 1, "end", 1))
	r.cliConcurrent("conc-confirm", r.N(1200, 30000), ccProf())
	r.longLives("long", "receipts", r.N(2, 8))
	r.Require("receipts_sent", 5000)
}

func checkC11(r *R) {
	r.Rule(ruleCliModel + ruleCliConc)
	r.clientAssume()
	r.stallMonitor()
	r.cliStepwise("timeouts", r.N(3000, 60000), cliProf("sendr", 10, "unsub", 6, "rcpt", 10, "time", 14, "end", 0, "disc", 1))
	r.cliConcurrent("conc-timeouts", r.N(800, 20000), ccProf("unsub", 3))
	r.cliStalledPeer("stalled-peer", r.N(400, 10000))
	r.cliAbandoned("abandoned", r.N(500, 10000))
	r.Require("abandoned", 500)
	r.Require("timeouts", 3000)
	r.Require("late_receipts", 1000)
}

func checkC12(r *R) {
	r.Rule(ruleCliModel + ruleCliConc)
	r.clientAssume()
	r.stallMonitor()
	r.cliStepwise("messages", r.N(3000, 60000), cliProf("msg", 30, "sub", 10, "end", 1))
	r.cliConcurrent("conc-messages", r.N(1200, 30000), ccProf("sub", 8, "acker", 70))
	r.cliCrossing("crossing", r.N(300, 8000))
	r.cliAbandoned("abandoned", r.N(300, 6000))
	r.longLives("long", "messages", r.N(2, 8))
	r.Require("crossings_blocked", 100)
	r.Require("messages_sent", 20000)
}

func checkC13(r *R) {
	r.Rule(ruleCliModel + ruleCliConc)
	r.clientAssume()
	r.stallMonitor()
	r.cliStepwise("acks", r.N(3000, 60000), cliProf("ack", 30, "txack", 10, "sub", 10, "end", 0))
	r.cliConcurrent("conc-acks", r.N(600, 15000), ccProf("ack", 12, "sub", 6, "acker", 70))
	r.longLives("long", "acks", r.N(2, 8))
	r.Require("op_ack", 5000)
}

func checkC14(r *R) {
	r.Rule(ruleCliModel + ruleCliConc)
	r.clientAssume()
	r.stallMonitor()
	r.cliStepwise("transactions", r.N(3000, 60000), cliProf("begin", 8, "txsend", 16, "txack", 12, "txend", 10, "end", 0))
	r.cliConcurrent("conc-transactions", r.N(1000, 25000), ccProf("tx", 12))
	r.longLives("long", "transactions", r.N(2, 8))
	r.Require("op_commit", 500)
	r.Require("op_abort-receipt", 200)
}

func checkC15(r *R) {
	r.Rule(ruleCliModel + ruleCliConc)
	r.clientAssume()
	r.stallMonitor()
	r.cliStepwise("unsubscribe", r.N(3000, 60000), cliProf("sub", 16, "unsub", 16, "rcpt", 16, "time", 3))
	r.cliConcurrent("conc-unsubscribe", r.N(1200, 30000), ccProf("sub", 8, "unsub", 6))
	r.cliAbandoned("abandoned", r.N(300, 6000))
	r.longLives("long", "subscriptions", r.N(2, 8))
	r.Require("op_unsubscribe", 3000)
}

func checkC16(r *R) {
	r.Rule(ruleCliModel + ruleCliConc)
	r.clientAssume()
	r.stallMonitor()
	r.cliStepwise("loss", r.N(4000, 80000), cliProf("end", 5, "disc", 1, "must", 1, "sendr", 10, "rcpt", 4))
	r.cliConcurrent("conc-loss", r.N(1500, 37500), ccProf("end-none", 2))
	r.cliStalledPeer("stalled-peer", r.N(200, 5000))
	r.Require("histories", 3000)
}

func checkC17(r *R) {
	r.Rule(ruleCliModel + ruleCliConc)
	r.clientAssume()
	r.stallMonitor()
	r.cliStepwise("disconnect", r.N(4000, 80000), cliProf("end", 0, "disc", 6, "must", 1, "rcpt", 6))
	r.cliConcurrent("conc-disconnect", r.N(1500, 37500), ccProf("end-disc", 12, "end-must", 2, "end-none", 2))
	r.cliStalledPeer("stalled-peer", r.N(200, 5000))
	r.cliShortTimeouts("short-timeouts", r.N(4000, 80000))
	r.Require("op_disconnect", 3000)
	r.Require("short_timeouts", 300)
}

func checkC19(r *R) {
	r.Rule(ruleCliModel + ruleCliConc)
	r.clientAssume()
	r.stallMonitor()
	r.cliStepwise("ids", r.N(2000, 40000), cliProf("sub", 12, "sendr", 12, "begin", 12, "unsub", 8, "rcpt", 16))
	r.cliConcurrent("conc-ids", r.N(800, 20000), ccProf("sub", 6, "tx", 6))
	r.cliIDHammer("hammer", r.N(60, 1500))
	r.longLives("long", "everything", r.N(2, 8))
	r.Require("frames_checked", 10000)
	r.Require("ids_hammered", 50000)
}

func checkC20(r *R) {
	r.Rule(ruleCliModel + ruleCliConc)
	r.clientAssume()
	r.stallMonitor()
	r.cliStepwise("stats", r.N(3000, 60000), cliProf("hb", 6, "end", 0))
	r.cliConcurrent("conc-stats", r.N(1000, 25000), ccProf("end-none", 30))
	r.longLives("long", "messages", r.N(2, 8))
	r.Require("stats_checked", 20000)
}
