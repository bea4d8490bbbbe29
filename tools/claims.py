CODEC = "Held on every generated case of the run; says nothing about inputs not generated. Trusts the independent codec in harness/wire.go."
SERVER = "Held in every generated execution of the real server (unmodified, in-memory network, virtual time, injected scheduling jitter); says nothing about schedules and inputs not generated."
CLIENT = "Held in every generated execution of the real client (unmodified, in-memory network, virtual time, generated and hostile peer behaviour); says nothing about schedules and inputs not generated."
E2E = "Held in every generated execution of the real client against the real server (both unmodified; memory network, virtual time, and TCP); says nothing about schedules and inputs not generated."
CLAIMS = [
 ("C01", "runtime monitor: round-trip oracle over generated frame sequences", CODEC),
 ("C02", "runtime monitor: differential replay of one stream under many fragmentations, stability and aliasing monitor", CODEC),
 ("C03", "runtime monitor: call-by-call comparison with an independent decoder on hostile streams", CODEC),
 ("C04", "runtime monitor: byte-exact comparison with an independent encoder, failing sinks", CODEC),
 ("C05", "runtime monitor: model-based state comparison after every operation", CODEC),
 ("C06", "runtime monitor: comparison with big-integer reference on enumerated and generated strings", CODEC),
 ("C07", "runtime monitor: outcome and time of generated connection attempts compared with an independent decoder, in virtual time and over TCP", CLIENT),
 ("C08", "runtime monitor: every byte written before the answer compared with a model of the options, in virtual time and over TCP", CLIENT),
 ("C09", "runtime monitor: every frame at the peer compared with an exact model of the calls", CLIENT),
 ("C10", "runtime monitor: result and time of every confirmed call compared with an exact model, peer delays, withholds, repeats receipts", CLIENT),
 ("C11", "runtime monitor: time and result of every timed-out call in virtual time, late and repeated receipts, exact model of everything afterwards", CLIENT),
 ("C12", "runtime monitor: everything received on subscription channels compared with what the peer sent", CLIENT),
 ("C13", "runtime monitor: every ACK and NACK at the peer compared with an exact model, all versions and ack modes", CLIENT),
 ("C14", "runtime monitor: every frame at the peer and every call result compared with an exact model of transactions", CLIENT),
 ("C15", "runtime monitor: call results, activity and channel state after every step compared with an exact model", CLIENT),
 ("C16", "runtime monitor: call results, channels, network connection and goroutine leftovers after generated endings at every stage", CLIENT),
 ("C17", "runtime monitor: wire order and call results compared with an exact model after graceful disconnects", CLIENT),
 ("C18", "runtime monitor: timestamps of every transmission and of the end against the negotiated values, in virtual time", CLIENT),
 ("C19", "runtime monitor: every id allocated in the process recorded and compared", CLIENT),
 ("C20", "runtime monitor: counters compared with frames counted at the peer in every quiescent state", CLIENT),
 ("C21", "runtime monitor: outcome of generated connection attempts, effects watched from a second client, over the real server in virtual time", SERVER),
 ("C22", "runtime monitor: reference broker in lock step plus offline judge over recorded event logs of concurrent clients", SERVER),
 ("C23", "runtime monitor: reference broker in lock step plus offline judge over recorded event logs of concurrent clients", SERVER),
 ("C24", "runtime monitor: reference broker in lock step plus offline judge over recorded event logs, injected disconnects and write failures", SERVER),
 ("C25", "runtime monitor: reference broker in lock step plus offline atomicity judge over recorded event logs", SERVER),
 ("C26", "runtime monitor: every receipt and ERROR matched against the requests of a reference broker", SERVER),
 ("C27", "runtime monitor: crash, allocation and reference-broker monitors under hostile clients", SERVER),
 ("C28", "runtime monitor: progress (stall) monitor over quiescent states in virtual time, under bursts beyond every internal buffer", SERVER),
 ("C29", "runtime monitor: timestamps of every transmission against the negotiated values, in virtual time", SERVER),
 ("C30", "runtime monitor: closed-connection and goroutine-leak monitor after generated endings", SERVER),
 ("C31", "runtime monitor: recording queue storage compared with a reference, offline replay of its call log", SERVER),
 ("C32", "runtime monitor: Go race detector over stress workloads of the real client and server", "No race in the accesses executed by the run; schedules not executed and locations whose history the detector has dropped are not covered."),
 ("C33", "runtime monitor: content and label comparison with a reference broker", SERVER),
 ("C35", "runtime monitor: everything received compared with everything sent by real clients of the real server, in lock step with a model and offline over recorded concurrent histories", E2E),
 ("C36", "runtime monitor: times of Accept calls and of every answer in virtual time, under scripted accept errors, silent and slow clients", SERVER),
 ("C37", "runtime monitor: the server process, its descriptors, memory and exit, and an offline judge of what real clients sent, received and settled over TCP, under clients that break off or misbehave", "Held in every generated run of the real server process with the real client library over loopback TCP in real time; says nothing about schedules and inputs not generated."),
 ("C38", "runtime monitor: live heap, live objects and goroutines after every thousand repetitions of generated rounds of work, in virtual time", "Held in every generated round of work on the real client and server (unmodified, in-memory network, virtual time); leaks below one object in four rounds, and rounds not generated, are not seen."),
 ("C39", "runtime monitor: every log line, everything printed, every frame at other clients, every storage call and every error searched for the generated passcodes", "Held in every generated history of the real client and server (unmodified, in-memory network, virtual time); looks for the passcode itself, its bytes in decimal and in hexadecimal."),
 ("C34", "runtime monitor: reference broker in lock step plus offline judge over recorded event logs", SERVER),
]
NOT_CLAIMED = []
NOTES = "No hooks in /repo: every injection point used (net.Conn, net.Listener, QueueStorage, Authenticator, Logger, option functions, virtual time) is public API."
