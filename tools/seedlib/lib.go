package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/server"
)

// A small raw STOMP peer, independent of the code under test.

func fail(format string, a ...interface{}) {
	fmt.Printf("FAIL: "+format+"\n", a...)
	os.Exit(1)
}

type msg struct {
	cmd  string
	h    [][2]string
	body string
}

func (m msg) get(k string) string {
	for _, e := range m.h {
		if e[0] == k {
			return e[1]
		}
	}
	return ""
}

var unesc = strings.NewReplacer(`\\`, `\`, `\r`, "\r", `\n`, "\n", `\c`, ":")
var esc = strings.NewReplacer(`\`, `\\`, "\r", `\r`, "\n", `\n`, ":", `\c`)

type raw struct {
	c      net.Conn
	r      *bufio.Reader
	frames chan msg
}

func newRaw(c net.Conn) *raw {
	x := &raw{c: c, r: bufio.NewReaderSize(c, 1<<20), frames: make(chan msg, 100000)}
	go x.loop()
	return x
}

func (x *raw) loop() {
	defer close(x.frames)
	for {
		l, err := x.r.ReadString('\n')
		if err != nil {
			return
		}
		l = strings.TrimRight(l, "\r\n")
		if l == "" {
			continue
		}
		m := msg{cmd: l}
		cl := -1
		for {
			l, err := x.r.ReadString('\n')
			if err != nil {
				return
			}
			l = strings.TrimRight(l, "\r\n")
			if l == "" {
				break
			}
			i := strings.IndexByte(l, ':')
			if i < 0 {
				return
			}
			k, v := unesc.Replace(l[:i]), unesc.Replace(l[i+1:])
			m.h = append(m.h, [2]string{k, v})
			if k == "content-length" && cl < 0 {
				cl, _ = strconv.Atoi(v)
			}
		}
		if cl >= 0 {
			b := make([]byte, cl+1)
			if _, err := io.ReadFull(x.r, b); err != nil {
				return
			}
			m.body = string(b[:cl])
		} else {
			s, err := x.r.ReadString(0)
			if err != nil {
				return
			}
			m.body = s[:len(s)-1]
		}
		x.frames <- m
	}
}

// send writes one frame: command, header name/value pairs.
func (x *raw) send(cmd string, h ...string) { x.sendBody(cmd, "", h...) }

func (x *raw) sendBody(cmd, body string, h ...string) {
	s := cmd + "\n"
	for i := 0; i+1 < len(h); i += 2 {
		s += esc.Replace(h[i]) + ":" + esc.Replace(h[i+1]) + "\n"
	}
	x.c.Write([]byte(s + "\n" + body + "\x00"))
}

// next returns the next frame, or a msg without command after the timeout or at the end.
func (x *raw) next(d time.Duration) msg {
	select {
	case m := <-x.frames:
		return m
	case <-time.After(d):
		return msg{}
	}
}

func (x *raw) expect(cmd string) msg {
	m := x.next(20 * time.Second)
	if m.cmd != cmd {
		fail("expected %s, got %v", cmd, m)
	}
	return m
}

// sync waits until everything sent so far has been processed, and returns the frames received before the receipt.
func (x *raw) sync() []msg {
	x.send("SEND", "destination", "/topic/__sync", "receipt", "sync")
	var l []msg
	for {
		m := x.next(20 * time.Second)
		if m.cmd == "RECEIPT" && m.get("receipt-id") == "sync" {
			return l
		}
		if m.cmd == "" || m.cmd == "ERROR" {
			fail("no receipt: %v", m)
		}
		l = append(l, m)
	}
}

func startServer(s *server.Server) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	s.Log = quiet{}
	go s.Serve(l)
	return l.Addr().String()
}

func dialRaw(addr string) *raw {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		fail("%v", err)
	}
	return newRaw(c)
}

func connect(addr string, h ...string) *raw {
	x := dialRaw(addr)
	x.send("CONNECT", append([]string{"accept-version", "1.2", "host", "h"}, h...)...)
	x.expect("CONNECTED")
	return x
}

type quiet struct{}

func (quiet) Debugf(string, ...interface{})   {}
func (quiet) Infof(string, ...interface{})    {}
func (quiet) Warningf(string, ...interface{}) {}
func (quiet) Errorf(string, ...interface{})   {}
func (quiet) Debug(string)                    {}
func (quiet) Info(string)                     {}
func (quiet) Warning(string)                  {}
func (quiet) Error(string)                    {}

// client connects the library's own client.
func client(addr string, opts ...func(*stomp.Conn) error) *stomp.Conn {
	c, err := stomp.Dial("tcp", addr, append([]func(*stomp.Conn) error{stomp.ConnOpt.Logger(quiet{})}, opts...)...)
	if err != nil {
		fail("%v", err)
	}
	return c
}
