package harness

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3"
)

// echoPeer is a network connection with a peer that accepts the connection, confirms every receipt asked for and
// ignores everything else, all within Write, so that goroutines using several of them run at full speed.
type echoPeer struct {
	mu    sync.Mutex
	in    bytes.Buffer // what was written and not yet parsed
	out   bytes.Buffer
	more  chan struct{}
	ended chan struct{}
	once  sync.Once
	rcpts []string
	subs  []string
	txs   []string
}

func newEchoPeer() *echoPeer {
	return &echoPeer{more: make(chan struct{}, 1), ended: make(chan struct{})}
}

func (p *echoPeer) Write(b []byte) (int, error) {
	select {
	case <-p.ended:
		return 0, io.ErrClosedPipe
	default:
	}
	p.mu.Lock()
	p.in.Write(b)
	for {
		raw := p.in.Bytes()
		i := bytes.IndexByte(raw, 0)
		if i < 0 {
			break
		}
		cmd, hs, _ := bytes.Cut(bytes.TrimLeft(raw[:i], "\r\n"), []byte("\n"))
		h := map[string]string{}
		for _, l := range bytes.Split(hs, []byte("\n")) {
			if len(l) == 0 {
				break
			}
			k, v, _ := bytes.Cut(l, []byte(":"))
			if _, dup := h[string(k)]; !dup {
				h[string(k)] = string(v)
			}
		}
		p.in.Next(i + 1)
		switch string(cmd) {
		case "CONNECT", "STOMP":
			p.out.WriteString("CONNECTED\nversion:1.2\nheart-beat:0,0\n\n\x00")
		case "SUBSCRIBE":
			p.subs = append(p.subs, h["id"])
		case "BEGIN":
			p.txs = append(p.txs, h["transaction"])
		}
		if r, ok := h["receipt"]; ok {
			p.rcpts = append(p.rcpts, r)
			p.out.WriteString("RECEIPT\nreceipt-id:" + r + "\n\n\x00")
		}
	}
	p.mu.Unlock()
	select {
	case p.more <- struct{}{}:
	default:
	}
	return len(b), nil
}

func (p *echoPeer) Read(b []byte) (int, error) {
	for {
		p.mu.Lock()
		if p.out.Len() > 0 {
			n, _ := p.out.Read(b)
			if p.out.Len() > 0 {
				select {
				case p.more <- struct{}{}:
				default:
				}
			}
			p.mu.Unlock()
			return n, nil
		}
		p.mu.Unlock()
		select {
		case <-p.more:
		case <-p.ended:
			return 0, io.EOF
		}
	}
}

func (p *echoPeer) Close() error { p.once.Do(func() { close(p.ended) }); return nil }

// cliIDHammer: several connections allocate ids at the same instants, in real time; all ids on all wires are distinct.
func (r *R) cliIDHammer(label string, n int) {
	r.Cases(label, n, func(i int, rng *rand.Rand) {
		nc, per := 4+rng.Intn(6), 200+rng.Intn(600)
		var peers []*echoPeer
		var conns []*stomp.Conn
		for k := 0; k < nc; k++ {
			p := newEchoPeer()
			c, err := stomp.Connect(p, stomp.ConnOpt.Logger(nopLog{}))
			if err != nil {
				r.Fail("connect", "Connect failed: "+err.Error(), nil)
				return
			}
			peers, conns = append(peers, p), append(conns, c)
		}
		kind := rng.Intn(4)
		start := make(chan struct{})
		var wg sync.WaitGroup
		got := make([][]string, nc)
		errs := make(chan string, 4*nc)
		for k := range conns {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < per; j++ {
					op := kind
					if kind == 3 {
						op = (k + j) % 3
					}
					switch op {
					case 0:
						tx, err := conns[k].BeginWithError()
						if err != nil {
							errs <- "Begin: " + err.Error()
							return
						}
						got[k] = append(got[k], tx.Id())
					case 1:
						s, err := conns[k].Subscribe("/topic/x", stomp.AckAuto)
						if err != nil {
							errs <- "Subscribe: " + err.Error()
							return
						}
						got[k] = append(got[k], s.Id())
					default:
						if err := conns[k].Send("/topic/x", "", nil, stomp.SendOpt.Receipt); err != nil {
							errs <- "Send: " + err.Error()
							return
						}
					}
				}
				// everything before this is on the wire when it is confirmed
				if err := conns[k].Send("/topic/x", "", nil, stomp.SendOpt.Receipt); err != nil {
					errs <- "Send: " + err.Error()
				}
			}()
		}
		close(start)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(2 * time.Minute):
			r.Fail("stuck", "calls that allocate ids have not returned for two minutes of real time", stompStates())
			return
		}
		for _, c := range conns {
			_ = c.MustDisconnect()
		}
		for _, p := range peers {
			_ = p.Close()
		}
		select {
		case e := <-errs:
			r.Fail("call-failed", e, nil)
			return
		default:
		}
		total := 0
		for k := range conns {
			p := peers[k]
			p.mu.Lock()
			wire := map[string]bool{}
			for what, ids := range map[string][]string{"receipt": p.rcpts, "subscription": p.subs, "transaction": p.txs} {
				for _, id := range ids {
					total++
					if id == "" {
						r.Fail("empty-id", "an allocated "+what+" id is empty", nil)
					}
					if d := newID(id, what+" id"); d != "" {
						r.Fail("id-reused", d, map[string]any{"connection": k})
						p.mu.Unlock()
						return
					}
					wire[id] = true
				}
			}
			for _, id := range got[k] {
				if !wire[id] {
					r.Fail("id-differs", fmt.Sprintf("the id %q that was reported is not the one on the wire", id), nil)
				}
			}
			p.mu.Unlock()
		}
		r.Count("ids_hammered", total)
		r.Eval(fmt.Sprintf("%d %d %d", kind, nc, per), total > 0)
	})
}
