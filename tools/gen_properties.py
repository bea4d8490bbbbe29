#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os

P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

# ---------------------------------------------------------------- frame layer
p("C01", "Frames survive a write/read round trip exactly",
  """Any sequence of frames and heart-beats written with the frame writer and read back with the frame reader is
  recovered exactly and in order: same commands, same header entries in the same order (repeated names, empty values, and any
  bytes in names and values including colon, backslash, CR and LF), and the same body bytes (any bytes, NUL included, when a
  content-length header is present; any NUL-free bytes otherwise). This holds for every reader and writer buffer size.""",
  ["inputs", "configurations"],
  """every list of frames with a known command and non-empty header names whose command and header section fit the reader's
  buffer, any body size up to several hundred kilobytes, with and without content-length, every reader/writer buffer size""",
  "The frame tests round-trip a handful of fixed frames with printable headers; escaping, body sizes around buffer boundaries and frame sequences form an unbounded input space.",
  ["frame/writer.go", "frame/reader.go", "frame/encode.go", "frame/header.go"],
  [("header value escaping and unescaping", "frame/encode.go"), ("content-length delimited body", "frame/reader.go Read"), ("frame serialisation", "frame/writer.go Write")],
  observe=["frame.Writer.Write", "frame.Reader.Read"])

p("C02", "Decoding is independent of how the byte stream is fragmented",
  """The frames, heart-beats and final error a frame reader returns depend only on the bytes of the stream, never on how those
  bytes are split across reads from the network. A frame that has been returned never changes afterwards, however much more is read
  from the same reader. A stream that ends or fails before a frame is complete yields an error, never a partial frame.""",
  ["inputs", "schedules"],
  "every stream of well-formed frames and heart-beats, every fragmentation into reads (down to single bytes, with empty reads interspersed), every truncation point, every buffer size",
  "The reader tests feed each stream in one piece and look at each frame immediately, so fragmentation, aliasing and truncation are not sampled.",
  ["frame/reader.go", "frame/encode.go"],
  [("line reading", "frame/reader.go readLine"), ("body read loop", "frame/reader.go Read"), ("zero-copy byte/string conversion", "frame/encode.go bytesToString")])

p("C03", "The frame reader accepts exactly the STOMP grammar and never panics",
  """For every byte stream the frame reader terminates without panicking, and each result is a heart-beat (an empty line), a frame, or an error.
  It returns a frame only for: a known STOMP command line, header lines each with a colon and a non-empty name, an empty line, then either exactly
  content-length bytes followed by a NUL, or everything up to the first NUL; lines may end in LF or CR LF. Anything else - an unknown
  command, a header without colon or with an empty name, a content-length that is not a non-negative decimal number fitting 32 bits, a body not followed by NUL, an early end - is an error.""",
  ["inputs"],
  "every byte stream; sampled by grammar-directed generation, mutation of valid streams and random bytes, judged by an independent reference parser",
  "Unit tests cover about a dozen valid and three malformed streams; the property ranges over all byte strings.",
  ["frame/reader.go", "frame/header.go", "frame/encode.go"],
  [("command whitelist", "frame/reader.go Read"), ("header line split", "frame/reader.go Read"), ("content-length parse", "frame/header.go ContentLength")])

p("C04", "The frame writer emits exactly the STOMP wire form, with no injection",
  """The bytes the frame writer puts on the wire for a frame are exactly the command line, one line per header entry with name and value
  escaped (backslash, CR, LF and colon), an empty line, the body and a single NUL; a heart-beat is a single LF. No header name or value can introduce an additional
  header line, end the header section or start another frame. When a write call returns without error, everything has been
  handed to the underlying writer, and when the underlying writer fails, the call returns an error.""",
  ["inputs", "configurations", "fault_sequences"],
  "every frame (any bytes in header names and values, any body), every buffer size, an underlying-writer failure at any byte offset",
  "WriterSuite checks the bytes of a few fixed frames with benign headers on a writer that never fails.",
  ["frame/writer.go", "frame/encode.go"],
  [("escaping replacer", "frame/encode.go replacerForEncodeValue"), ("flush per frame", "frame/writer.go Write")])

p("C05", "Frame headers behave as an ordered multimap; clones are independent",
  """A frame header behaves as an ordered list of entries under every sequence of operations: add appends, set replaces the value of the first entry with that
  name or appends, get and contains return the first match, get-all returns all in order, delete removes every entry with the name and leaves all others in order, length and indexed access agree, and the content-length accessor
  reports exactly absent, a valid number or an error. A clone of a header or frame is equal to the original and neither is affected by later changes to the other (headers or body).""",
  ["histories", "inputs"],
  "every sequence of header/frame operations over any number of live headers and clones, with repeated and empty names and values",
  "Header tests run one short scripted sequence; aliasing between clones and deletion of adjacent duplicates need histories.",
  ["frame/header.go", "frame/frame.go"],
  [("flat key/value slice", "frame/header.go"), ("deep copy", "frame/frame.go Clone")])

p("C06", "Heart-beat header values parse to exact durations or are rejected",
  """Parsing a heart-beat header value succeeds exactly when it is two unsigned decimal integers separated by one comma and both, taken as milliseconds,
  fit a time duration; the two durations returned are then exactly those numbers of milliseconds in order. Every other string is rejected with an error.""",
  ["inputs"], "every string", "HeartBeat tests list a dozen values; overflow boundaries, signs, spaces, unicode digits and newlines are an open input space.",
  ["frame/heartbeat.go"], [("regexp and range checks", "frame/heartbeat.go ParseHeartBeat")])

# ---------------------------------------------------------------- client library
p("C07", "Connect yields a connection only from a valid CONNECTED response",
  """A client connection attempt returns a connection exactly when the peer's first response is a CONNECTED frame whose version (if present) is supported and whose
  heart-beat (if present) is well formed; the connection then reports the session and server values of that frame and the version in it (1.0 when absent), and the response-headers callback saw those headers. For any other response -
  ERROR, another frame, a heart-beat, malformed bytes, end of stream, or silence until the context's deadline or cancellation - it returns an error (with the peer's text and frame for an ERROR) and no connection, nothing keeps running, and a dialled network connection is closed. Once connected, the context has no further effect.""",
  ["inputs", "fault_sequences", "configurations"],
  "every response byte stream (including truncation at any byte), every subset of response headers, every timing of response, end and context",
  "conn_test.go scripts three good and three bad responses, and that package is not part of the stable test run.",
  ["conn.go", "conn_options.go", "version.go", "errors.go"],
  [("response validation", "conn.go ConnectWithContext"), ("dial", "conn.go DialWithContext"), ("supported versions", "version.go CheckSupported")])

p("C08", "The connect request carries exactly what the options ask for",
  """The first frame a client sends is a single CONNECT frame (STOMP when that option is used) whose host, accept-version, heart-beat (milliseconds the client will send,
  milliseconds it wants to receive), login and passcode headers are exactly those given by the connect options or their documented defaults, followed by the custom headers in the order given, which never override the former. Options apply in any order; nil options are ignored; an option that fails
  makes the attempt fail before anything is written. Nothing but that frame is written before the peer answers, in one piece if it fits the write buffer.""",
  ["configurations", "inputs"],
  "every combination and order of connect options with arbitrary values",
  "Tests use two or three option sets; combinations and values are unbounded.",
  ["conn.go", "conn_options.go"],
  [("option application and defaults", "conn_options.go newConnOptions"), ("frame construction", "conn_options.go NewFrame")])

p("C09", "Every accepted client operation puts exactly one intact frame on the wire",
  """While a client connection is healthy, each successful send, subscribe, begin, commit, abort, ack or nack by any goroutine puts exactly one frame on the wire, with exactly the requested destination, content type,
  content-length, body, headers and transaction, and the frames of one goroutine appear in its call order. Frames of concurrent callers never interleave, and a call that fails because of its options puts nothing on the wire.""",
  ["schedules", "inputs", "histories"],
  "every interleaving of concurrent callers mixing all operations, any header/body content, any write fragmentation or back-pressure of the network",
  "Tests use a single caller with a scripted peer; loss, duplication or reordering between caller, write channel and wire depends on schedules.",
  ["conn.go", "transaction.go", "send_options.go", "subscribe_options.go", "frame/writer.go"],
  [("write request channel", "conn.go Send/sendFrame/Subscribe"), ("single writer goroutine", "conn.go processLoop"), ("frame construction", "conn.go createSendFrame")],
  observe=["bytes received by the peer", "return values of the API calls"])

p("C10", "A confirmed operation returns success only after its own RECEIPT",
  """A send with a receipt option, a commit or abort with receipt, and a graceful disconnect return success only after the peer's RECEIPT frame carrying that operation's own receipt id has arrived; receipts for other ids, messages and heart-beats
  never satisfy it. If instead the peer sends an ERROR frame or the connection ends, the call returns an error, and an ERROR's message text is the error's message.""",
  ["schedules", "histories", "fault_sequences"],
  "any number of concurrent confirmed operations, receipts arriving in any order, interleaved with foreign receipts and messages, or replaced by ERROR/close",
  "Existing tests exercise the receipt-waiting helper with a hand-fed channel, not the matching of ids across concurrent operations.",
  ["conn.go", "transaction.go", "send_options.go", "id.go"],
  [("receipt channel map", "conn.go processLoop"), ("receipt wait", "conn.go readReceiptWithTimeout, sendFrame")])

p("C11", "A receipt timeout is reported in time and leaves the connection usable",
  """When no RECEIPT arrives within the configured receipt timeout, a send with receipt, a disconnect or an unsubscribe returns the corresponding timeout error, not before the timeout and without hanging, even when the peer has stopped reading. After a
  timed-out send or unsubscribe, other operations on the connection work normally and messages keep flowing, whether the missing RECEIPT arrives late, never, or repeatedly.""",
  ["schedules", "fault_sequences", "histories"],
  "every pattern of lost, late and duplicated receipts and every timeout setting, in virtual time, with other subscriptions active",
  "The one timeout test per call stops at the error value; what the late receipt does to the connection afterwards is never looked at.",
  ["conn.go", "subscription.go"],
  [("timed receipt wait", "conn.go readReceiptWithTimeout"), ("cond wait with timeout", "subscription.go waitWithTimeout"), ("delivery of receipts", "conn.go processLoop")])

p("C12", "Each received MESSAGE goes once, intact and in order, to its subscription",
  """Every MESSAGE frame the peer sends for an active subscription is delivered exactly once on that subscription's channel, in the order sent, with body, all headers, destination and content type unchanged; it is never delivered
  to another subscription, and messages for unknown subscriptions are dropped without disturbing anything. Reading a delivered message's body through its reader interface, in any chunk sizes, yields exactly the body.""",
  ["schedules", "inputs", "histories"],
  "any number of subscriptions (own or generated ids), any interleaving of their messages with receipts, heart-beats and subscribe/unsubscribe/send activity, any fragmentation, any content",
  "Tests deliver five fixed messages to one subscription in lock step.",
  ["conn.go", "subscription.go", "message.go", "frame/reader.go"],
  [("dispatch by subscription id", "conn.go processLoop"), ("delivery goroutine", "subscription.go readLoop")])

p("C13", "Ack and Nack reference the right message for the protocol version",
  """Acknowledging (or negatively acknowledging) a received message sends exactly one ACK (NACK) identifying that message the way the negotiated version requires: subscription and message-id for 1.0 and 1.1, the message's ack value as id for 1.2.
  Acking on an auto subscription sends nothing and succeeds; nacking there, nacking under 1.0, acking a message that did not come from the server, or one lacking the required header fails with an error and sends nothing. Within a transaction the frame also carries that transaction.""",
  ["inputs", "configurations", "histories"],
  "every version, ack mode, message header combination, inside or outside a transaction, in any order over several subscriptions",
  "Tests use well-formed messages and one subscription.",
  ["conn.go", "transaction.go", "ack.go", "message.go", "version.go"],
  [("version-dependent frame", "conn.go createAckNackFrame")])

p("C14", "A client transaction scopes its frames and is final once completed",
  """Every send, ack and nack made through a transaction carries that transaction's id, after its BEGIN and before its COMMIT or ABORT on the wire, and nothing outside the transaction carries it; ids are distinct across
  transactions. After a successful commit or abort every further operation on the transaction returns the completed-transaction error and writes nothing.""",
  ["histories", "schedules"],
  "any number of concurrent transactions on one or several connections, any operation sequence including use after completion and option errors",
  "TestTransaction scripts one transaction at a time and never uses one after completion.",
  ["transaction.go", "conn.go", "id.go"],
  [("completed flag", "transaction.go"), ("transaction header", "transaction.go Send/Ack/Nack")])

p("C15", "Unsubscribe completes once and closes the channel after the last message",
  """An unsubscribe whose UNSUBSCRIBE frame the peer confirms returns success promptly, after which the subscription is inactive and its channel is closed once everything received for it earlier has been delivered; the channel is closed exactly once. Of any
  number of concurrent or repeated calls exactly one proceeds and the rest return the completed-subscription error; a call rejected because of its options leaves the subscription active. Other subscriptions are unaffected.""",
  ["schedules", "histories"],
  "every interleaving of unsubscribe with message delivery, its RECEIPT, other unsubscribes and other operations, including an immediate RECEIPT",
  "The repository's own unsubscribe tests fail about once in 40 runs because they hit one bad schedule; they do not look for it.",
  ["subscription.go", "conn.go"],
  [("state machine", "subscription.go Unsubscribe"), ("channel close", "subscription.go closeChannel"), ("receipt tagging", "conn.go processLoop UNSUBSCRIBE")])

p("C16", "Losing the connection ends every pending call and subscription cleanly",
  """However and whenever a client connection ends - end of stream or read error at any byte, write error, ERROR frame, malformed input, read timeout or abrupt disconnect - every pending and later call on it returns within a bounded time, no call reports
  success for an operation that needs a confirmation that never came, and every active subscription whose channel is being drained receives what was delivered before, then one error, and then sees its channel closed. The network connection is closed, the library's goroutines end, and nothing panics.""",
  ["fault_sequences", "schedules", "histories"],
  "every failure kind at every point of a workload of concurrent senders, confirmed sends, transactions, subscribers and unsubscribers, including a full write queue",
  "Tests close an idle connection; failures while callers are blocked in the middle of operations need fault injection and schedules.",
  ["conn.go", "subscription.go", "transaction.go"],
  [("error fan-out", "conn.go sendError"), ("close protocol", "conn.go MustDisconnect/Disconnect"), ("closed flag under mutex", "conn.go")])

p("C17", "Disconnect is graceful, ordered, final and idempotent",
  """A graceful disconnect sends one DISCONNECT frame with a receipt header after every frame whose call completed before it, and nothing, not even a heart-beat, follows it on the wire; it returns success once that receipt has arrived, with the network connection closed. Afterwards sends fail with the
  already-closed error, subscribing and transaction operations fail, active subscriptions end, and further disconnects (graceful or abrupt) return without error and without writing.""",
  ["schedules", "histories"],
  "disconnect racing with concurrent senders, subscribers and other disconnects at any point",
  "Tests disconnect an idle connection once.",
  ["conn.go"], [("disconnect protocol", "conn.go Disconnect"), ("closed checks", "conn.go Send/sendFrame/Subscribe")])

p("C18", "Client heart-beats keep to the negotiated intervals",
  """When the server asked for heart-beats every N ms (N > 0), the gap between consecutive client transmissions on an idle or busy connection never exceeds N ms, less the heart-beat error if N ms is longer than that (plus nothing but scheduling time); when it asked for none, the client sends none. When both sides agreed that the server sends
  heart-beats (server offers a > 0 ms and the client wants b > 0 ms), a connection on which nothing arrives for (max(a,b) + the heart-beat error) x the grace multiplier is closed at that time with a read-timeout error on its subscriptions, and it is never closed for silence shorter than that. When either value is zero it is never closed for silence.""",
  ["configurations", "schedules"],
  "every combination of offered and requested intervals, error allowance and grace multiplier, every pattern of traffic and silence, in virtual time",
  "One test uses one interval pair; the write-timeout test is skipped.",
  ["conn.go", "conn_options.go", "frame/heartbeat.go"],
  [("timers", "conn.go processLoop"), ("negotiation", "conn.go ConnectWithContext")])

p("C19", "Identifiers the client allocates are never reused",
  """All ids the client library allocates in a process - subscription ids, receipt ids and transaction ids, across goroutines and connections - are non-empty and pairwise distinct, and a subscription reports the same id it put on the wire.""",
  ["schedules", "histories"],
  "any number of concurrent goroutines and connections allocating ids through the public operations",
  "TestAllocateId checks a counter, not that ids on the wire are distinct.",
  ["id.go", "conn.go", "send_options.go", "transaction.go"], [("atomic counter", "id.go allocateId")])

p("C20", "Connection statistics count exactly the frames sent and received",
  """With statistics enabled, once a connection is quiet its sent counter equals the number of frames the client has put on the wire since connecting (heart-beats and the connect frame excluded) and its received counter equals the number of frames and heart-beats received since connecting;
  both never decrease. With statistics disabled both stay zero.""",
  ["schedules", "histories"],
  "every concurrent mix of operations and incoming traffic",
  "One test asserts one value of each counter.",
  ["conn.go"], [("atomic counters", "conn.go Stats")])

# ---------------------------------------------------------------- server
p("C21", "Nothing takes effect before a valid, authenticated CONNECT",
  """On a new server connection only a CONNECT or STOMP frame is accepted first, and it is accepted exactly when it has no receipt header, the authenticator (if any) accepts its login and passcode, its accept-version offers 1.1 or 1.2, and its heart-beat is well formed; the server then answers CONNECTED with the
  highest version offered by the client. In every other case the client gets no CONNECTED, at most an ERROR, the connection is closed, and no frame it sent before or after has any effect on queues, topics or other clients. A further CONNECT or STOMP on an accepted connection is answered with ERROR, ends it, and has no effect either.""",
  ["inputs", "configurations", "histories"],
  "every first frame and header combination, every accept-version list, every authenticator decision, frames pipelined behind the connect frame",
  "frame_test.go checks version selection on four values; effects of pipelined frames on rejected connections are not tested.",
  ["server/client/conn.go", "server/client/frame.go", "server/processor.go"],
  [("connection state function", "server/client/conn.go connecting/connected"), ("version choice", "server/client/frame.go determineVersion"), ("authentication", "server/client/conn.go handleConnect")])

p("C22", "A topic message reaches every current subscriber exactly once, in order",
  """A message sent to a topic is delivered exactly once to each subscription on that topic that was active before the send was processed and stays active until the delivery, and to no other; messages of one publisher reach each subscriber in the order sent, and all subscribers of a topic see messages in the same relative order. Nothing is
  delivered to a subscription created after the message was processed or on another destination.""",
  ["schedules", "histories"],
  "any number of publishers, topics, subscriptions (several per connection) and subscribe/unsubscribe activity, any interleaving",
  "The server test has five receivers and one sender per topic in one schedule; topic tests call the topic directly with two fakes.",
  ["server/topic/topic.go", "server/topic/manager.go", "server/processor.go", "server/client/subscription.go", "server/client/conn.go"],
  [("fan-out", "server/topic/topic.go Enqueue"), ("serial request processing", "server/processor.go Serve")])

p("C23", "Queue messages are delivered once, to one consumer, first in first out",
  """While no consumer fails or leaves messages unacknowledged, every message accepted for a queue is delivered to exactly one subscription of that queue, exactly once, or stays in the queue until one subscribes; none is lost, duplicated or delivered elsewhere. Each queue hands out messages in the order it accepted them:
  a single consumer sees every producer's messages in order, and a message confirmed to one producer before another is sent is delivered before it. Queues are independent of each other, and destinations starting with the queue prefix - and only those - are queues.""",
  ["schedules", "histories"],
  "any number of producers, consumers and queues, any interleaving of send, subscribe, unsubscribe, bursts larger than every internal buffer",
  "The server test has one producer and one consumer per queue and 100 messages.",
  ["server/queue/queue.go", "server/queue/manager.go", "server/queue/memory_queue.go", "server/processor.go", "server/client/conn.go"],
  [("dispatch to waiting subscription or storage", "server/queue/queue.go"), ("FIFO list", "server/queue/memory_queue.go"), ("one outstanding message per subscription", "server/client/conn.go processLoop")])

p("C24", "Unacknowledged queue messages are redelivered; acknowledged ones never are",
  """On a client or client-individual queue subscription at most one message is outstanding; an ACK naming it (message-id under 1.1, ack id under 1.2) settles it for good and releases the next one, a NACK puts it back for delivery ahead of messages not yet delivered, and an ACK or NACK never settles a message of another
  subscription. If the consumer unsubscribes or its connection ends for any reason at any moment, each message sent to it but not acknowledged is put back at once and delivered again ahead of messages not yet delivered, and no message is lost.""",
  ["histories", "fault_sequences", "schedules"],
  "every history of deliver/ack/nack/unsubscribe/disconnect over several consumers and queues, both versions, connections cut at any byte or with traffic queued",
  "No server test acknowledges anything; list-level tests use hand-made message ids.",
  ["server/client/conn.go", "server/client/subscription_list.go", "server/client/subscription.go", "server/queue/queue.go"],
  [("list of outstanding subscriptions", "server/client/subscription_list.go"), ("cleanup and requeue", "server/client/conn.go cleanupConn"), ("requeue at head", "server/queue/memory_queue.go Requeue")])

p("C25", "Server transactions are all-or-nothing",
  """Sends and acknowledgements made in a transaction have no effect until it commits; then all of them take effect, each exactly once, in the order sent. If it is aborted, or its connection ends before commit, none of them ever takes effect. Transactions of different ids or connections do not affect each other, and beginning
  an open transaction or using an unknown one is answered with ERROR.""",
  ["histories", "fault_sequences", "schedules"],
  "any number of interleaved transactions mixing sends to queues and topics, acks and nacks, ended by commit, abort, disconnect or a cut connection",
  "tx_store_test drives the store directly with one transaction.",
  ["server/client/tx_store.go", "server/client/conn.go"],
  [("per-connection transaction store", "server/client/tx_store.go"), ("replay on commit", "server/client/conn.go handleCommit")])

p("C26", "Every receipt request is answered once, after the frame was processed",
  """For every frame after CONNECT that carries a receipt header, the server answers with exactly one frame carrying that receipt id: a RECEIPT if and only if the frame was accepted and processed, otherwise an ERROR after which the connection closes. Receipts come in the order of the requests, frames without the header get none,
  and once a SEND's receipt arrives the message is ordered before anything sent later by anyone.""",
  ["histories", "inputs", "schedules"],
  "every sequence of valid and invalid frames of every kind, with and without receipt headers, with any receipt id",
  "No server test requests a receipt except the implicit one in DISCONNECT.",
  ["server/client/conn.go"],
  [("receipt sending", "server/client/conn.go sendReceiptImmediately"), ("error with receipt-id", "server/client/conn.go sendErrorImmediately")])

p("C27", "No client input can crash the server or disturb other clients",
  """Whatever bytes or frames one client sends, in any order, valid or not, and however it disconnects, the server process keeps running and keeps serving all other clients correctly: their messages are neither lost, duplicated nor altered, and new clients can connect. An invalid frame is answered with at most
  one ERROR to its sender, whose connection is then closed, and the memory a connection takes is bounded by what its client really sent, not by what it announces.""",
  ["inputs", "histories", "fault_sequences"],
  "every byte or frame sequence from a hostile client (missing or odd headers, wrong ids, wrong states, huge or negative numbers, raw garbage), concurrently with well-behaved clients",
  "Server tests send only valid traffic.",
  ["server/client/conn.go", "server/processor.go", "server/client/subscription.go", "server/client/subscription_list.go", "frame/reader.go"],
  [("state function error handling", "server/client/conn.go processLoop"), ("header checks", "server/client/conn.go handle*")])

p("C28", "The server never stalls: queued work drains whatever clients do",
  """As long as clients read what is sent to them or disconnect, the server as a whole keeps making progress: every frame a client sends is eventually processed and every due message delivered, for any traffic volume, fan-out and pattern of clients that publish, subscribe and disconnect abruptly at the same time. In particular no
  combination of full internal buffers can block it permanently.""",
  ["schedules", "fault_sequences", "histories"],
  "bursts far beyond every internal buffer, clients subscribed many times to the topics they publish to, clients vanishing while traffic for them is queued",
  "Server tests stay below the buffer sizes and never disconnect under load.",
  ["server/processor.go", "server/client/conn.go", "server/client/subscription.go"],
  [("request channel", "server/processor.go"), ("per-connection channels", "server/client/conn.go"), ("cleanup", "server/client/conn.go cleanupConn")])

p("C29", "Server heart-beats follow the negotiated values",
  """The server's CONNECTED heart-beat is (y,x) where x and y are the client's offered and requested values, each raised to the server's configured minimum unless zero. If y > 0, the gap between consecutive server transmissions never exceeds y ms. A client that agreed to send (x > 0) and stays silent is disconnected, but never for silence
  shorter than x ms, nor later than a few times x; a client with x = 0 is never disconnected for silence.""",
  ["configurations", "schedules"],
  "every client offer, server minimum and traffic pattern, in virtual time",
  "One test checks that a 5 ms/5 ms connection survives 100 ms.",
  ["server/client/conn.go", "server/client/frame.go", "server/client/util.go", "server/processor.go"],
  [("read deadline", "server/client/conn.go readLoop"), ("write timer", "server/client/conn.go processLoop"), ("negotiation", "server/client/conn.go handleConnect")])

p("C30", "A finished server connection leaves nothing behind",
  """After a client's connection has ended for whatever reason, in whatever state and with whatever traffic pending in either direction, the server closes its side of the network connection, the goroutines serving it end, and its subscriptions no longer receive or hold back any message.
  After a DISCONNECT has been processed, its client is sent nothing more except the receipt for it.""",
  ["fault_sequences", "schedules", "histories"],
  "connections ended by DISCONNECT, protocol error, end of stream, read or write failure at any byte, with pending deliveries, open transactions and unread input",
  "Tests never look at the server after a client has gone.",
  ["server/client/conn.go", "server/processor.go"], [("cleanup", "server/client/conn.go cleanupConn")])

p("C31", "A custom queue storage is started, used serially and holds all messages",
  """A server configured with its own queue storage starts it before use, calls it from one goroutine at a time, and keeps every queue message that no consumer holds in it: a message is stored once, under its own queue, with its destination, headers and body, and is removed only to be delivered. The built-in in-memory storage returns per queue
  first-in first-out, with requeued messages first, and nothing for an empty or unknown queue.""",
  ["histories", "schedules", "configurations"],
  "every history of enqueue/requeue/dequeue over many queues; every concurrent client workload over a recording storage",
  "memory_queue_test runs one short script; no test plugs a storage into the server.",
  ["server/queue_storage.go", "server/processor.go", "server/queue/queue.go", "server/queue/storage.go", "server/queue/memory_queue.go"],
  [("storage interface", "server/queue/storage.go"), ("in-memory lists", "server/queue/memory_queue.go")])

p("C32", "No data race under concurrent use of client connections and server",
  """Concurrent use of one client connection by many goroutines - sends, subscriptions, transactions (one goroutine per transaction), acks, statistics, unsubscribes, disconnects - and of one server by many clients is free of data races: no memory location is accessed concurrently without
  synchronisation with at least one write.""",
  ["schedules"],
  "every interleaving of the public operations that a goroutine-safe connection and a server must support, including shutdown and failure paths",
  "The stable tests run without the race detector and, for the client package, not at all.",
  ["conn.go", "subscription.go", "transaction.go", "server/client/conn.go", "server/processor.go", "id.go"],
  [("mutex, channels and atomics", "conn.go, subscription.go"), ("ownership hand-over through channels", "server/client/conn.go")])

p("C33", "The server relays message content unchanged and labels it correctly",
  """The MESSAGE frame a subscriber receives has the sender's body and all of the sender's headers unchanged (receipt and transaction removed), plus the subscriber's own subscription id and a message-id that is unique on that connection; an ack header is present exactly when the subscription must acknowledge and then identifies this delivery. What one
  subscriber gets is never altered by what others get, by redelivery, or by transactions.""",
  ["inputs", "histories", "schedules"],
  "any header and body content (repeated headers, escapes, binary bodies, with or without content-length), any mix of queue, topic, redelivered and transactional messages to subscriptions of every ack mode",
  "Server tests compare bodies of ASCII messages only.",
  ["server/client/conn.go", "server/client/subscription.go", "server/topic/topic.go", "frame/frame.go"],
  [("header rewriting", "server/client/conn.go allocateMessageId, handleSend"), ("copy per subscriber", "server/topic/topic.go Enqueue")])

p("C34", "Server subscriptions are keyed by id and end with UNSUBSCRIBE",
  """On one server connection a subscription id identifies at most one subscription: subscribing with an id in use, unsubscribing an unknown id, or omitting id or destination is answered with ERROR; different connections may use the same ids freely. After an UNSUBSCRIBE has been confirmed no message is delivered under that id until it is subscribed again,
  and a reused id then only gets messages of its new destination.""",
  ["histories", "schedules"],
  "every history of subscribe/unsubscribe/resubscribe with id reuse, racing with message traffic to old and new destinations, any ack mode",
  "No server test unsubscribes.",
  ["server/client/conn.go", "server/queue/queue.go", "server/topic/topic.go"],
  [("subscription map", "server/client/conn.go handleSubscribe/handleUnsubscribe"), ("stale delivery check", "server/client/conn.go processLoop")])

p("C35", "Client library and server interoperate end to end",
  """With this library's client talking to this library's server, under every protocol version both support and every ack mode, a message sent (plainly, with receipt or in a committed transaction) is received by a subscriber with identical destination, content type, custom headers and body; acks, nacks, unsubscribes, transactions and graceful disconnects
  succeed and have their documented effect.""",
  ["configurations", "inputs", "schedules"],
  "every version, ack mode, operation mix and content, several clients at once",
  "The server package's test sends plain text with auto acknowledgement only, and never acks, nacks, unsubscribes or uses transactions.",
  ["conn.go", "subscription.go", "transaction.go", "server/client/conn.go", "server/processor.go"],
  [("both protocol ends", "conn.go, server/client/conn.go")])

p("C36", "The server keeps accepting and serves each connection on its own",
  """While a server runs, every connection its listener hands out is served at once, whatever the other connections do: ones that send nothing or half a frame, ones whose authentication takes long or is refused, ones that are closed again immediately. An accept error that declares itself temporary never ends accepting: the server calls
  Accept again after a wait that is never zero, never longer than 5 s, and well under a second for the first error after a successful accept. Any other accept error ends accepting for good. Neither disturbs the established connections.""",
  ["schedules", "histories", "faults"],
  "every interleaving of accepts, accept errors, slow or silent clients and traffic on established connections",
  "The tests use a healthy TCP listener, clients that connect promptly, and an authenticator that answers at once.",
  ["server/processor.go", "server/client/conn.go"],
  [("accept loop", "server/processor.go Listen"), ("goroutines per connection", "server/client/conn.go NewConn, readLoop, processLoop")])

p("C37", "The stand-alone server serves real clients over TCP until it is killed",
  """stompd listens on the address given and ends with an error when it cannot; ListenAndServe and Serve do the same within a process, and Dial returns either a working connection or an error. Whatever clients do over TCP - break off, half-close, send garbage or half frames, announce huge bodies,
  never read - the process keeps running and keeps serving the others: calls of well-behaved clients succeed, every message whose acceptance was confirmed reaches the topic's subscribers in order, or one consumer that settles it; a message whose acknowledgement was confirmed is not delivered again, one that a vanished consumer
  had not acknowledged is. When all clients are gone, their descriptors are closed again.""",
  ["schedules", "histories", "faults"],
  "any number of producers, consumers and hostile clients on TCP connections, each ending at any point in any way; every way of starting a server",
  "The tests start a server within the test process and use a handful of clients that end properly; stompd itself is never run.",
  ["stompd/main.go", "server/server.go", "server/processor.go", "server/client/conn.go", "conn.go"],
  [("daemon", "stompd/main.go main"), ("listening", "server/server.go ListenAndServe, Serve"), ("dialling", "conn.go Dial")])

p("C38", "What client and server hold on to does not grow with the work done",
  """Memory and goroutines of a connection and of the server depend on what is outstanding - open connections, subscriptions and transactions, messages stored or not yet settled, requests not yet answered - and on the set of destinations in use, not on how much has been done. However often any sequence of
  connecting, subscribing, sending, receiving, acknowledging, transactions, confirmed calls (answered in time or late) and disconnecting in any way is repeated, once everything in it has been settled the live heap and the number of the library's goroutines are what they were before.""",
  ["histories", "schedules"],
  "any sequence of operations repeated any number of times",
  "A leak of a few bytes per operation changes no result a test looks at; it shows only after very many repetitions.",
  ["conn.go", "subscription.go", "transaction.go", "server/client/conn.go", "server/client/tx_store.go", "server/client/subscription_list.go", "server/queue/queue.go", "server/topic/topic.go", "server/processor.go"],
  [("client state", "conn.go processLoop receipts, unsubs, subs"), ("server state", "server/client/conn.go subs, subList, txStore; server/queue, server/topic")])

p("C39", "A passcode reaches the authenticator and nobody else",
  """The passcode a client presents is written to the wire once, in its CONNECT (or STOMP) frame, and is given by the server to the Authenticator. It goes nowhere else: it is in no line of either side's log and nothing printed, in no error a call of the client library returns, in nothing sent to another client, and in
  nothing handed to the queue storage - whether the attempt is accepted, refused, malformed, repeated or broken off, and whatever happens on the connection afterwards.""",
  ["inputs", "histories"],
  "every kind of connection attempt and every way it can go wrong, on both sides",
  "No test looks at the log or searches what other clients receive.",
  ["server/client/conn.go", "server/processor.go", "conn.go", "conn_options.go", "frame/reader.go", "internal/log/stdlogger.go"],
  [("server side", "server/client/conn.go handleConnect, readLoop, sendErrorImmediately"), ("client side", "conn.go ConnectWithContext, processLoop")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
