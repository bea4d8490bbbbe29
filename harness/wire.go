package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"strings"

	"github.com/go-stomp/stomp/v3/frame"
)

// This file is an independent implementation of the STOMP wire form, used as oracle and as raw client / fake broker codec.

// F is a frame as the harness sees it. A heart-beat is an F with empty Cmd.
type F struct {
	Cmd  string
	H    [][2]string
	Body []byte
}

func mk(cmd string, kv ...string) *F {
	f := &F{Cmd: cmd}
	for i := 0; i+1 < len(kv); i += 2 {
		f.H = append(f.H, [2]string{kv[i], kv[i+1]})
	}
	return f
}

func (f *F) with(body []byte) *F { f.Body = body; return f }

func (f *F) get(k string) (string, bool) {
	for _, e := range f.H {
		if e[0] == k {
			return e[1], true
		}
	}
	return "", false
}

func (f *F) val(k string) string { v, _ := f.get(k); return v }

func (f *F) count(k string) int {
	n := 0
	for _, e := range f.H {
		if e[0] == k {
			n++
		}
	}
	return n
}

func (f *F) String() string {
	if f == nil {
		return "<nil>"
	}
	if f.Cmd == "" {
		return "<heart-beat>"
	}
	return fmt.Sprintf("%s%v body=%s", f.Cmd, f.H, q(f.Body))
}

func escRef(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			b.WriteString(`\\`)
		case '\r':
			b.WriteString(`\r`)
		case '\n':
			b.WriteString(`\n`)
		case ':':
			b.WriteString(`\c`)
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// unescRef reports ok=false for escape sequences STOMP does not define.
func unescRef(s string) (string, bool) {
	var b strings.Builder
	ok := true
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		if i+1 == len(s) {
			return b.String() + `\`, false
		}
		i++
		switch s[i] {
		case '\\':
			b.WriteByte('\\')
		case 'r':
			b.WriteByte('\r')
		case 'n':
			b.WriteByte('\n')
		case 'c':
			b.WriteByte(':')
		default:
			b.WriteByte('\\')
			b.WriteByte(s[i])
			ok = false
		}
	}
	return b.String(), ok
}

// enc is the reference wire form.
func (f *F) enc() []byte {
	if f.Cmd == "" {
		return []byte("\n")
	}
	var b bytes.Buffer
	b.WriteString(f.Cmd)
	b.WriteByte('\n')
	for _, e := range f.H {
		b.WriteString(escRef(e[0]))
		b.WriteByte(':')
		b.WriteString(escRef(e[1]))
		b.WriteByte('\n')
	}
	b.WriteByte('\n')
	b.Write(f.Body)
	b.WriteByte(0)
	return b.Bytes()
}

var knownCommands = map[string]bool{"CONNECT": true, "STOMP": true, "SEND": true, "SUBSCRIBE": true, "UNSUBSCRIBE": true, "ACK": true,
	"NACK": true, "BEGIN": true, "COMMIT": true, "ABORT": true, "DISCONNECT": true, "CONNECTED": true, "MESSAGE": true, "RECEIPT": true, "ERROR": true}

var commandList = []string{"CONNECT", "STOMP", "SEND", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "NACK", "BEGIN", "COMMIT", "ABORT", "DISCONNECT",
	"CONNECTED", "MESSAGE", "RECEIPT", "ERROR"}

var errMore = errors.New("incomplete")
var errBad = errors.New("malformed")

// dec decodes one frame or heart-beat at the start of b. It returns the number of bytes used, errMore if b ends before the
// frame does and errBad if it can never become valid. odd says that an undefined escape sequence was seen.
func dec(b []byte) (f *F, n int, odd bool, err error) {
	line := func() ([]byte, bool) {
		i := bytes.IndexByte(b[n:], '\n')
		if i < 0 {
			return nil, false
		}
		l := b[n : n+i]
		n += i + 1
		if len(l) > 0 && l[len(l)-1] == '\r' {
			l = l[:len(l)-1]
		}
		return l, true
	}
	l, ok := line()
	if !ok {
		return nil, 0, false, errMore
	}
	if len(l) == 0 {
		return &F{}, n, false, nil
	}
	f = &F{Cmd: string(l)}
	if !knownCommands[f.Cmd] {
		return nil, n, false, errBad
	}
	for {
		l, ok := line()
		if !ok {
			return nil, 0, odd, errMore
		}
		if len(l) == 0 {
			break
		}
		c := bytes.IndexByte(l, ':')
		if c <= 0 {
			return nil, n, odd, errBad
		}
		k, ok1 := unescRef(string(l[:c]))
		v, ok2 := unescRef(string(l[c+1:]))
		if !ok1 || !ok2 {
			odd = true
		}
		f.H = append(f.H, [2]string{k, v})
	}
	if cl, ok := f.get("content-length"); ok {
		if cl == "" {
			return nil, n, odd, errBad
		}
		for i := 0; i < len(cl); i++ {
			if cl[i] < '0' || cl[i] > '9' {
				return nil, n, odd, errBad
			}
		}
		v, err := strconv.ParseUint(cl, 10, 32)
		if err != nil {
			return nil, n, odd, errBad
		}
		if uint64(len(b)-n) < v+1 {
			return nil, 0, odd, errMore
		}
		f.Body = append([]byte{}, b[n:n+int(v)]...)
		n += int(v)
		if b[n] != 0 {
			return nil, n, odd, errBad
		}
		n++
		return f, n, odd, nil
	}
	i := bytes.IndexByte(b[n:], 0)
	if i < 0 {
		return nil, 0, odd, errMore
	}
	f.Body = append([]byte{}, b[n:n+i]...)
	n += i + 1
	return f, n, odd, nil
}

// decStream decodes frames from an io.Reader incrementally.
type decStream struct {
	r   io.Reader
	buf []byte
	tmp []byte
}

func newDecStream(r io.Reader) *decStream { return &decStream{r: r, tmp: make([]byte, 32768)} }

var errMalformed = errors.New("peer sent a malformed frame")

func (d *decStream) next() (*F, error) {
	for {
		if len(d.buf) > 0 {
			f, n, _, err := dec(d.buf)
			if err == nil {
				d.buf = d.buf[n:]
				return f, nil
			}
			if err == errBad {
				return nil, fmt.Errorf("%w: %s", errMalformed, q(d.buf))
			}
		}
		n, err := d.r.Read(d.tmp)
		d.buf = append(d.buf, d.tmp[:n]...)
		if err != nil && n == 0 {
			return nil, err
		}
	}
}

func toLib(f *F) *frame.Frame {
	if f.Cmd == "" {
		return nil
	}
	g := frame.New(f.Cmd)
	for _, e := range f.H {
		g.Header.Add(e[0], e[1])
	}
	g.Body = f.Body
	return g
}

func fromLib(g *frame.Frame) *F {
	if g == nil {
		return &F{}
	}
	f := &F{Cmd: g.Command}
	if g.Header != nil {
		for i := 0; i < g.Header.Len(); i++ {
			k, v := g.Header.GetAt(i)
			f.H = append(f.H, [2]string{k, v})
		}
	}
	f.Body = append([]byte{}, g.Body...)
	return f
}

func sameF(a, b *F) bool {
	if a.Cmd != b.Cmd || len(a.H) != len(b.H) || !bytes.Equal(a.Body, b.Body) {
		return false
	}
	for i := range a.H {
		if a.H[i] != b.H[i] {
			return false
		}
	}
	return true
}

// ---- generators

var nastyPieces = []string{"", ":", "\\", "\r", "\n", "\r\n", "\\n", "\\c", "\\\\", "\\r", "a", "B", "0", " ", "\t", "é", "\xff", "\x80\x81", "日本",
	"content-length", "\nSEND\n", "x:y", "\\:", ":\\", "trailing\\", "\"", ",", "\x01", "{}", "::", "\n\n", "\r\r"}

func randText(rng *rand.Rand, maxPieces int) string {
	var b strings.Builder
	n := rng.Intn(maxPieces + 1)
	for i := 0; i < n; i++ {
		switch rng.Intn(4) {
		case 0:
			b.WriteByte(byte(1 + rng.Intn(255)))
		default:
			b.WriteString(nastyPieces[rng.Intn(len(nastyPieces))])
		}
	}
	return b.String()
}

// randName is a non-empty header name that is not content-length.
func randName(rng *rand.Rand) string {
	for {
		var s string
		if rng.Intn(3) == 0 {
			s = []string{"a", "b", "foo", "foo-bar", "x", "receipt", "id", "destination", "message", "Foo"}[rng.Intn(10)]
		} else {
			s = randText(rng, 4)
		}
		if s != "" && s != "content-length" {
			return s
		}
	}
}

func randBody(rng *rand.Rand, n int, nul bool) []byte {
	b := make([]byte, n)
	switch rng.Intn(4) {
	case 0:
		rng.Read(b)
	case 1:
		for i := range b {
			b[i] = "\n\r:\x00\\abcSEND"[rng.Intn(12)]
		}
	case 2:
		for i := range b {
			b[i] = byte('a' + i%26)
		}
	default:
		rng.Read(b)
		for i := range b {
			if rng.Intn(3) == 0 {
				b[i] = 0
			}
		}
	}
	if !nul {
		for i := range b {
			if b[i] == 0 {
				b[i] = 'z'
			}
		}
	}
	return b
}

func bodySize(rng *rand.Rand) int {
	switch rng.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 4090 + rng.Intn(14)
	case 3:
		return []int{15, 16, 17, 31, 32, 33, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537}[rng.Intn(15)]
	case 4:
		return rng.Intn(20000)
	default:
		return rng.Intn(60)
	}
}

// longText is like randText, and sometimes very long.
func longText(rng *rand.Rand, maxPieces int) string {
	s := randText(rng, maxPieces)
	if rng.Intn(200) == 0 {
		s = strings.Repeat(s+"y", 1+rng.Intn(5000))
	}
	return s
}
