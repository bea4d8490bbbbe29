package harness

import (
	"bytes"
	"fmt"
	"log"
	"math/rand"
	"os"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/go-stomp/stomp/v3"
)

func init() { register("C39", checkC39) }

const ruleSecrets = "Each case is a history in which clients present generated passcodes, valid or not, in every kind of CONNECT frame; every log line, " +
	"everything printed, every byte sent to another client, every stored message and every error is searched for the passcodes. " +
	"Distinct: kinds of attempts and what followed."

func checkC39(r *R) {
	r.Rule(ruleSecrets)
	r.Assume("a passcode is not sent by the application as content of a message")
	r.Assume("what the server answers to the client that presented the passcode is not judged")
	r.stallMonitor()
	tmp, err := os.CreateTemp("", "printed")
	if err == nil { // whatever is printed
		_ = os.Remove(tmp.Name())
		so, se := os.Stdout, os.Stderr
		os.Stdout, os.Stderr = tmp, tmp
		defer func() { os.Stdout, os.Stderr = so, se; _ = tmp.Close() }()
	}
	printed := func() string {
		if tmp == nil {
			return ""
		}
		st, err := tmp.Stat()
		if err != nil || st.Size() == 0 {
			return ""
		}
		b := make([]byte, st.Size())
		_, _ = tmp.ReadAt(b, 0)
		_ = tmp.Truncate(0)
		_, _ = tmp.Seek(0, 0)
		return string(b)
	}
	var std bytes.Buffer
	log.SetOutput(&lockedWriter{w: &std})
	defer log.SetOutput(os.Stderr)
	stdText := func() string { s := std.String(); std.Reset(); return s }
	r.srvSecrets("server", r.N(1500, 30000), func() string { return printed() + stdText() })
	r.cliSecrets("client", r.N(2500, 50000), func() string { return printed() + stdText() })
	r.Require("passcodes_refused", 500)
	r.Require("passcodes_accepted", 500)
	r.Require("log_lines", 1000)
}

type lockedWriter struct {
	mu sync.Mutex
	w  *bytes.Buffer
}

func (l *lockedWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.w.Write(p)
}

// memLog keeps what is logged.
type memLog struct {
	mu sync.Mutex
	l  []string
}

func (m *memLog) add(s string) {
	m.mu.Lock()
	m.l = append(m.l, s)
	m.mu.Unlock()
}
func (m *memLog) Debugf(f string, v ...interface{})   { m.add(fmt.Sprintf(f, v...)) }
func (m *memLog) Infof(f string, v ...interface{})    { m.add(fmt.Sprintf(f, v...)) }
func (m *memLog) Warningf(f string, v ...interface{}) { m.add(fmt.Sprintf(f, v...)) }
func (m *memLog) Errorf(f string, v ...interface{})   { m.add(fmt.Sprintf(f, v...)) }
func (m *memLog) Debug(s string)                      { m.add(s) }
func (m *memLog) Info(s string)                       { m.add(s) }
func (m *memLog) Warning(s string)                    { m.add(s) }
func (m *memLog) Error(s string)                      { m.add(s) }
func (m *memLog) take() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	l := m.l
	m.l = nil
	return l
}

type passAuth struct {
	mu    sync.Mutex
	valid map[string]bool
}

func (a *passAuth) Authenticate(login, passcode string) bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.valid[passcode]
}

func newSecret(rng *rand.Rand) string {
	b := []byte("pw-")
	for i := 0; i < 14; i++ {
		b = append(b, "abcdefghijkmnpqrstuvwxyz23456789"[rng.Intn(32)])
	}
	return string(b)
}

// disclosed looks for a secret, also in a form a formatter might give it.
func disclosed(text string, secrets []string) string {
	for _, s := range secrets {
		if strings.Contains(text, s) || strings.Contains(text, fmt.Sprint([]byte(s))) || strings.Contains(text, fmt.Sprintf("%x", s)) {
			return s
		}
	}
	return ""
}

func (r *R) srvSecrets(label string, n int, printed func() string) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		lg := &memLog{}
		auth := &passAuth{valid: map[string]bool{}}
		r.inServer(rng, srvOpt{recorded: rng.Intn(2) == 0, heartBeat: time.Second, log: lg, auth: auth}, func(w *srvWorld) {
			if w.store != nil {
				w.store.keep = true
			}
			wp := newSecret(rng)
			auth.valid[wp] = true
			secrets := []string{wp}
			watch := w.dial("watch")
			_ = watch.send(mk("CONNECT", "accept-version", "1.2", "host", "h", "login", "watch", "passcode", wp))
			synctest.Wait()
			_ = watch.send(mk("SUBSCRIBE", "id", "t", "destination", "/topic/t"), mk("SUBSCRIBE", "id", "q", "destination", "/queue/q"))
			synctest.Wait()
			var kinds []string
			var history []string
			look := func() bool {
				synctest.Wait()
				check := func(where, text string) bool {
					if s := disclosed(text, secrets); s != "" {
						r.Fail(where, fmt.Sprintf("the passcode %s was disclosed in %s", s, where), map[string]any{"history": history, "text": clip(text, 2000)})
						return false
					}
					return true
				}
				l := lg.take()
				r.Count("log_lines", len(l))
				ok := check("the log", strings.Join(l, "\n")) && check("what was printed", printed())
				for _, x := range watch.take() {
					ok = ok && check("a frame sent to another client", x.F.String()+string(x.F.Body)+fmt.Sprint(x.F.H))
				}
				if w.store != nil {
					w.store.mu.Lock()
					for _, c := range w.store.calls {
						if c.F != nil {
							ok = ok && check("the queue storage", fmt.Sprint(c.F.H)+string(c.F.Body))
						}
					}
					w.store.calls = nil
					w.store.mu.Unlock()
				}
				return ok
			}
			for k, n := 0, 1+rng.Intn(6); k < n; k++ {
				p := newSecret(rng)
				secrets = append(secrets, p)
				valid := rng.Intn(2) == 0
				if valid {
					auth.mu.Lock()
					auth.valid[p] = true
					auth.mu.Unlock()
				}
				c := w.dial(fmt.Sprint("c", k))
				f := mk([]string{"CONNECT", "STOMP"}[rng.Intn(2)], "accept-version", "1.1,1.2", "host", "h")
				if rng.Intn(2) == 0 {
					f.H = append([][2]string{{"login", "someone"}, {"passcode", p}}, f.H...)
				} else {
					f.H = append(f.H, [2]string{"login", "someone"}, [2]string{"passcode", p})
				}
				kind := []string{"plain", "plain", "version", "heart-beat", "receipt", "extra", "body", "length", "no-colon", "cut", "twice", "repeated", "other-command", "later"}[rng.Intn(14)]
				raw := []byte(nil)
				switch kind {
				case "version":
					f.H[indexH(f, "accept-version")][1] = []string{"1.0", "2.0", "", "x"}[rng.Intn(4)]
				case "heart-beat":
					f.H = append(f.H, [2]string{"heart-beat", []string{"x", "1", "1,2,3", "-1,0", "99999999999999999999,1"}[rng.Intn(5)]})
				case "receipt":
					f.H = append(f.H, [2]string{"receipt", "r"})
				case "extra":
					f.H = append(f.H, [2]string{"client-id", "c"}, [2]string{"destination", "/topic/t"})
				case "body":
					f.Body = []byte("hello")
				case "length":
					f.H = append(f.H, [2]string{"content-length", []string{"x", "-1", "1", "99999999999999999999"}[rng.Intn(4)]})
				case "no-colon":
					raw = bytes.Replace(f.enc(), []byte("\n\n"), []byte("\nnonsense\n\n"), 1)
				case "cut":
					b := f.enc()
					raw = b[:len(b)-1-rng.Intn(10)]
				case "repeated":
					f.H = append(f.H, [2]string{"passcode", p})
				case "other-command":
					f.Cmd = []string{"CONNECTED", "LOGIN", "SEND", "connect", "SUBSCRIBE"}[rng.Intn(5)]
					f.H = append(f.H, [2]string{"destination", "/topic/t"}, [2]string{"id", "1"})
				}
				kinds = append(kinds, kind+fmt.Sprint(valid))
				if raw == nil {
					raw = f.enc()
				}
				history = append(history, fmt.Sprintf("client %d (%s, valid passcode: %v): %s", k, kind, valid, q(raw)))
				if kind == "later" {
					_ = c.send(mk("SEND", "destination", "/topic/t"))
				}
				_ = c.raw(raw)
				if rng.Intn(2) == 0 {
					time.Sleep(1500 * time.Millisecond)
				}
				synctest.Wait()
				got := ""
				if fs := c.take(); len(fs) > 0 {
					got = fs[0].F.Cmd
				}
				if got == "CONNECTED" {
					r.Count("passcodes_accepted", 1)
				} else {
					r.Count("passcodes_refused", 1)
				}
				switch rng.Intn(5) {
				case 0:
					_ = c.send(mk("SEND", "destination", "/topic/t").with([]byte("hi")), mk("SEND", "destination", "/queue/q").with([]byte("hi")))
				case 1:
					_ = c.send(f) // a second CONNECT
				case 2:
					_ = c.raw([]byte("BAD\nno header\n\n\x00"))
				case 3:
					_ = c.send(mk("ACK", "id", "x"))
				}
				synctest.Wait()
				c.drop(rng.Intn(3))
				if !look() {
					return
				}
			}
			time.Sleep(3 * time.Second)
			look()
			r.Eval(fmt.Sprint("server", kinds), true)
			r.Sample("server", history)
		})
	})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func indexH(f *F, k string) int {
	for i, e := range f.H {
		if e[0] == k {
			return i
		}
	}
	return -1
}

func (r *R) cliSecrets(label string, n int, printed func() string) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		r.inClient(rng, func(w *srvWorld) {
			a, b := memPipe()
			a.tapOn = true // everything the client sends
			peer := &rawClient{w: w, name: "peer", c: b, srv: a, overCh: make(chan struct{})}
			p := newSecret(rng)
			lg := &memLog{}
			answer := []string{"connected", "connected", "connected", "error", "error-echo", "receipt", "garbage", "close", "version", "heart-beat"}[rng.Intn(10)]
			peer.onFrame = func(f *F) {
				if f.Cmd != "CONNECT" && f.Cmd != "STOMP" {
					if id, ok := f.get("receipt"); ok && rng.Intn(4) > 0 {
						_ = peer.send(mk("RECEIPT", "receipt-id", id))
					}
					return
				}
				switch answer {
				case "connected":
					_ = peer.send(mk("CONNECTED", "version", "1.2", "session", "s"))
				case "error", "error-echo":
					_ = peer.send(mk("ERROR", "message", "access refused").with([]byte("go away")))
				case "receipt":
					_ = peer.send(mk("RECEIPT", "receipt-id", "1"))
				case "garbage":
					_ = peer.raw([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
				case "close":
					_ = b.Close()
				case "version":
					_ = peer.send(mk("CONNECTED", "version", "7"))
				case "heart-beat":
					_ = peer.send(mk("CONNECTED", "version", "1.2", "heart-beat", "x"))
				}
			}
			go peer.read()
			opts := []func(*stomp.Conn) error{stomp.ConnOpt.Login("someone", p)}
			std := rng.Intn(3) == 0
			if !std {
				opts = append(opts, stomp.ConnOpt.Logger(lg))
			}
			if rng.Intn(6) == 0 {
				opts = append(opts, func(*stomp.Conn) error { return errReset })
				answer += " option-fails"
			}
			rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
			var errs []error
			var history []string
			conn, err := stomp.Connect(a, opts...)
			errs = append(errs, err)
			history = append(history, fmt.Sprintf("Connect, answered with %s: %v", answer, err))
			if conn != nil {
				sub, err := conn.Subscribe("/queue/a", stomp.AckClient)
				errs = append(errs, err)
				if sub != nil {
					go func() {
						for range sub.C {
						}
					}()
				}
				for k := 0; k < rng.Intn(5); k++ {
					switch rng.Intn(5) {
					case 0:
						errs = append(errs, conn.Send("/queue/a", "text/plain", []byte("x")))
					case 1:
						tx := conn.Begin()
						errs = append(errs, tx.Send("/queue/a", "", nil), tx.Commit())
					case 2:
						_ = peer.send(mk("MESSAGE", "subscription", "nobody", "message-id", "1", "destination", "/d"))
					case 3:
						_ = peer.send(mk("MESSAGE", "subscription", sub.Id(), "message-id", "1", "destination", "/d"))
					case 4:
						_ = peer.send(mk("RECEIPT", "receipt-id", "unknown"))
					}
					synctest.Wait()
				}
				how := rng.Intn(5)
				history = append(history, fmt.Sprint("ended by ", how))
				switch how {
				case 0:
					errs = append(errs, conn.Disconnect())
				case 1:
					errs = append(errs, conn.MustDisconnect())
				case 2:
					_ = peer.send(mk("ERROR", "message", "go away"))
				case 3:
					b.Reset()
				case 4:
					_ = peer.raw([]byte("\x01garbage\n\n"))
				}
				synctest.Wait()
				errs = append(errs, conn.Send("/queue/a", "", nil, stomp.SendOpt.Receipt), conn.MustDisconnect())
			}
			synctest.Wait()
			sent := string(a.Tapped())
			_ = b.Close()
			_ = a.Close()
			synctest.Wait()
			l := lg.take()
			r.Count("log_lines", len(l))
			fail := func(where, text string) {
				r.Fail("client-"+where, fmt.Sprintf("the passcode %s was disclosed in %s", p, where), map[string]any{"history": history, "text": clip(text, 2000)})
			}
			secrets := []string{p}
			if t := strings.Join(l, "\n"); disclosed(t, secrets) != "" {
				fail("the log", t)
			}
			if t := printed(); disclosed(t, secrets) != "" {
				fail("what was printed", t)
			}
			for _, e := range errs {
				if e != nil && disclosed(e.Error(), secrets) != "" {
					fail("an error", e.Error())
				}
			}
			if n := strings.Count(sent, p); n > 1 {
				fail("a frame after CONNECT", sent)
			} else if n == 1 {
				if k := strings.Index(sent, "\x00"); k >= 0 && strings.Index(sent, p) > k {
					fail("a frame after CONNECT", sent)
				}
				r.Count("passcodes_presented", 1)
			}
			r.Eval(fmt.Sprint("client ", answer, len(errs), std), true)
			r.Sample("client "+answer, history)
		})
	})
}
