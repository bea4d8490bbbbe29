package harness

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

func init() {
	register("C01", checkC01)
	register("C02", checkC02)
	register("C03", checkC03)
	register("C04", checkC04)
	register("C05", checkC05)
	register("C06", checkC06)
}

// randFrame is any frame the property C01 speaks about; heart-beats included.
func randFrame(rng *rand.Rand) *F {
	if rng.Intn(8) == 0 {
		return &F{}
	}
	f := &F{Cmd: commandList[rng.Intn(len(commandList))]}
	n := rng.Intn(6)
	if rng.Intn(25) == 0 {
		n = 20 + rng.Intn(40)
	}
	for i := 0; i < n; i++ {
		f.H = append(f.H, [2]string{randName(rng), randText(rng, 5)})
		if rng.Intn(4) == 0 {
			f.H = append(f.H, [2]string{f.H[rng.Intn(len(f.H))][0], randText(rng, 3)})
		}
		if rng.Intn(40) == 0 {
			f.H = append(f.H, [2]string{"long", strings.Repeat(randText(rng, 4)+"y", 1+rng.Intn(3000))})
		}
	}
	cl := rng.Intn(2) == 0
	f.Body = randBody(rng, bodySize(rng), cl)
	if cl {
		e := [2]string{"content-length", fmt.Sprint(len(f.Body))}
		k := rng.Intn(len(f.H) + 1)
		f.H = append(f.H[:k:k], append([][2]string{e}, f.H[k:]...)...)
		if rng.Intn(10) == 0 { // a later content-length entry is an ordinary, ignored entry
			f.H = append(f.H, [2]string{"content-length", "junk"})
		}
	}
	return f
}

// randWrite is a frame as a caller might hand it to the writer: the content-length, if any, need not fit the body.
func randWrite(rng *rand.Rand) *F {
	f := randFrame(rng)
	if f.Cmd == "" {
		return f
	}
	if rng.Intn(5) == 0 {
		f.Body = randBody(rng, bodySize(rng), true)
	}
	if rng.Intn(8) == 0 {
		f.Body = append(append([]byte{}, f.Body...), "\x00\x00\n\r"[rng.Intn(4)])
	}
	if rng.Intn(12) == 0 {
		f.Cmd = []string{"FOO", "send", "S", "MESSAGES", "CON NECT"}[rng.Intn(5)]
	}
	if rng.Intn(15) == 0 {
		f.H = append(f.H, [2]string{"", randText(rng, 2)})
	}
	if rng.Intn(15) == 0 {
		f.H = append([][2]string{{"content-length", fmt.Sprint(rng.Intn(20))}}, f.H...)
	}
	if rng.Intn(400) == 0 {
		for k := rng.Intn(3000); k > 0; k-- {
			f.H = append(f.H, [2]string{randName(rng), randText(rng, 2)})
		}
	}
	return f
}

func kindOf(f *F) string {
	if f.Cmd == "" {
		return "hb"
	}
	_, cl := f.get("content-length")
	return fmt.Sprintf("%s/%d/%v/%d", f.Cmd, len(f.H), cl, len(f.Body))
}

var bufSizes = []int{0, 1, 15, 16, 17, 31, 32, 64, 100, 1024, 4095, 4096, 4097, 65536}

type chunkReader struct {
	b    []byte
	next func(avail int) int
	err  error // returned at the end
	with bool  // return the error together with the last bytes
	zero int   // occasional zero-byte reads
	post int   // reads after the end
	n    int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.n++
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.b) == 0 {
		c.post++
		if c.post > 10000 {
			panic("harness: reader keeps reading after the end of the stream")
		}
		return 0, c.err
	}
	if c.zero > 0 && c.n%c.zero == 0 {
		return 0, nil
	}
	k := len(c.b)
	if k > len(p) {
		k = len(p)
	}
	if c.next != nil {
		if m := c.next(k); m < k {
			k = m
		}
	}
	copy(p, c.b[:k])
	c.b = c.b[k:]
	if c.with && len(c.b) == 0 {
		return k, c.err
	}
	return k, nil
}

func checkC01(r *R) {
	r.Rule("a case is a random sequence of 1-12 frames and heart-beats written with a random writer buffer size and read back with a random " +
		"reader buffer size; non-trivial when it contains at least one frame; distinct by the written bytes")
	r.Assume("frames without a content-length header have NUL-free bodies; header names are non-empty")
	r.Cases("roundtrip", r.N(60000, 1500000), func(i int, rng *rand.Rand) {
		n := 1 + rng.Intn(12)
		var fs []*F
		var out bytes.Buffer
		ws, rs := bufSizes[rng.Intn(len(bufSizes))], bufSizes[rng.Intn(len(bufSizes))]
		var w *frame.Writer
		if ws == 0 {
			w = frame.NewWriter(&out)
		} else {
			w = frame.NewWriterSize(&out, ws)
		}
		frames := 0
		for j := 0; j < n; j++ {
			f := randFrame(rng)
			fs = append(fs, f)
			if f.Cmd != "" {
				frames++
			}
			if err := w.Write(toLib(f)); err != nil {
				r.Fail("write-error", "Writer.Write failed on a healthy writer", map[string]any{"frame": f.String(), "err": err.Error()})
				return
			}
		}
		src := append([]byte{}, out.Bytes()...)
		var rd *frame.Reader
		cr := &chunkReader{b: src, err: io.EOF, next: randChunk(rng.Int63())}
		if rs == 0 {
			rd = frame.NewReader(cr)
		} else {
			rd = frame.NewReaderSize(cr, rs)
		}
		for j, f := range fs {
			g, err := rd.Read()
			if err != nil {
				r.Fail("read-error", fmt.Sprintf("frame %d of a written sequence could not be read back: %v", j, err),
					map[string]any{"frame": f.String(), "wire": q(out.Bytes()), "writer": ws, "reader": rs})
				return
			}
			if got := fromLib(g); !sameF(got, f) {
				r.Fail("mismatch", fmt.Sprintf("frame %d came back different", j), map[string]any{"written": f.String(), "read": got.String(), "writer": ws, "reader": rs})
				return
			}
		}
		if g, err := rd.Read(); err == nil {
			r.Fail("extra", "an extra frame was read after the written sequence", map[string]any{"read": fromLib(g).String(), "wire": q(out.Bytes())})
			return
		}
		r.Count("frames_compared", n)
		r.Eval(string(src), frames > 0)
		if i < 2 {
			r.Sample("sequence", fmt.Sprint(fs[0], " ... ", n, " in all"))
		}
	})
	r.Cases("huge", r.N(48, 1500), func(i int, rng *rand.Rand) { r.hugeBodies(rng) })
	r.Require("huge_bodies_compared", 30)
	r.Require("frames_compared", 10000)
}

// hugeBodies round-trips and truncates frames whose bodies lie around the sizes at which a reader may grow its memory.
func (r *R) hugeBodies(rng *rand.Rand) {
	var out bytes.Buffer
	w := frame.NewWriterSize(&out, []int{16, 4096, 100000}[rng.Intn(3)])
	var fs []*F
	for k := 1 + rng.Intn(3); k > 0; k-- {
		base := []int{4096, 65536, 1 << 20, 2 << 20, 4 << 20, 3 << 20, 1<<20 + 1<<19}[rng.Intn(7)]
		n := base + []int{-1, 0, 1, rng.Intn(1000), -rng.Intn(1000)}[rng.Intn(5)]
		b := make([]byte, n)
		rng.Read(b)
		f := mk("MESSAGE", "destination", "/x")
		if rng.Intn(3) > 0 {
			f.H = append(f.H, [2]string{"content-length", fmt.Sprint(n)})
		} else {
			for j := range b {
				if b[j] == 0 {
					b[j] = 1
				}
			}
		}
		f.Body = b
		fs = append(fs, f)
		if err := w.Write(toLib(f)); err != nil {
			r.Fail("write-error", "Writer.Write failed on a healthy writer", map[string]any{"body": n, "err": err.Error()})
			return
		}
	}
	read := func(src []byte) (got []*frame.Frame, err error) {
		rd := frame.NewReaderSize(&chunkReader{b: src, err: io.EOF, next: randBigChunk(rng.Int63())}, []int{16, 4096, 100000}[rng.Intn(3)])
		for {
			var g *frame.Frame
			if g, err = rd.Read(); err != nil {
				return
			}
			got = append(got, g)
		}
	}
	compare := func(got []*frame.Frame, n int, what string) bool {
		if len(got) != n {
			r.Fail("huge-count", fmt.Sprintf("%d frames with large bodies were read, %d written (%s)", len(got), n, what), nil)
			return false
		}
		for j, g := range got {
			if !sameF(fromLib(g), fs[j]) {
				r.Fail("huge-mismatch", "a frame with a large body came back different", map[string]any{"written": len(fs[j].Body), "read": len(g.Body)})
				return false
			}
			r.Count("huge_bodies_compared", 1)
		}
		return true
	}
	got, err := read(append([]byte{}, out.Bytes()...))
	if err != io.EOF {
		r.Fail("huge-error", fmt.Sprintf("reading written frames with large bodies failed: %v", err), nil)
		return
	}
	if !compare(got, len(fs), "whole stream") {
		return
	}
	// cut inside the last frame
	cut := out.Len() - 1 - rng.Intn(len(fs[len(fs)-1].Body))
	got, _ = read(append([]byte{}, out.Bytes()[:cut]...))
	if !compare(got, len(fs)-1, "truncated stream") {
		return
	}
	r.Eval(fmt.Sprint(out.Len(), cut), true)
}

// randBigChunk fragments into pieces up to 100 kB.
func randBigChunk(seed int64) func(int) int {
	rng := rand.New(rand.NewSource(seed))
	return func(avail int) int {
		k := 1 + rng.Intn([]int{10, 5000, 100000, 1 << 22}[rng.Intn(4)])
		if k > avail {
			return avail
		}
		return k
	}
}

type decoded struct {
	fs  []*F
	err error
	raw []*frame.Frame
}

// readAll drives the library reader to its first error; every returned frame is also snapshotted at once.
func readAll(rd *frame.Reader, limit int) (d decoded, overrun bool) {
	for {
		g, err := rd.Read()
		if err != nil {
			d.err = err
			return
		}
		d.fs = append(d.fs, fromLib(g))
		d.raw = append(d.raw, g)
		if len(d.fs) > limit {
			return d, true
		}
	}
}

func errClass(err, injected error) string {
	switch {
	case err == nil:
		return "none"
	case errors.Is(err, injected):
		return "stream"
	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
		return "stream"
	}
	return "format"
}

func checkC02(r *R) {
	r.Rule("a case is a random byte stream (valid, truncated, corrupted, or ending in an injected error) read under one fragmentation after " +
		"having been read in one piece; non-trivial when the stream has more than 8 bytes; distinct by stream, fragmentation and buffer size")
	myErr := errors.New("injected stream failure")
	r.Cases("frag", r.N(24000, 600000), func(i int, rng *rand.Rand) {
		var wire []byte
		var want []*F // complete frames before any corruption
		var ends []int
		n := 1 + rng.Intn(5)
		for j := 0; j < n; j++ {
			f := randFrame(rng)
			want = append(want, f)
			wire = append(wire, f.enc()...)
			ends = append(ends, len(wire))
		}
		mode := rng.Intn(4)
		switch mode {
		case 1: // cut anywhere
			k := rng.Intn(len(wire) + 1)
			wire = wire[:k]
		case 2: // corrupt
			for k := 1 + rng.Intn(4); k > 0; k-- {
				wire[rng.Intn(len(wire))] = "\n\r:\x00\\aA1"[rng.Intn(8)]
			}
			want = nil
		case 3: // CR LF line ends in the first header section where harmless: just another stream
			wire = append([]byte("\r\n\n\r\n"), wire...)
			want = nil
		}
		size := bufSizes[1+rng.Intn(len(bufSizes)-1)]
		endErr := io.EOF
		if rng.Intn(2) == 0 {
			endErr = myErr
		}
		base, over := readAll(frame.NewReader(&chunkReader{b: append([]byte{}, wire...), err: endErr}), len(wire)+1)
		if over {
			r.Fail("endless", "the reader returns more frames than the stream has bytes", q(wire))
			return
		}
		if mode <= 1 {
			complete := 0
			for _, e := range ends {
				if e <= len(wire) {
					complete++
				}
			}
			if len(base.fs) != complete {
				r.Fail("partial", fmt.Sprintf("stream of %d complete frames yielded %d", complete, len(base.fs)), map[string]any{"wire": q(wire), "len": len(wire)})
				return
			}
			for j := 0; j < complete; j++ {
				if !sameF(base.fs[j], want[j]) {
					r.Fail("mismatch", "a frame of the stream was decoded differently", map[string]any{"want": want[j].String(), "got": base.fs[j].String()})
					return
				}
			}
			if c := errClass(base.err, myErr); c != "stream" {
				r.Fail("enderr", "a cut stream did not end with the stream's error", map[string]any{"err": fmt.Sprint(base.err), "wire": q(wire)})
				return
			}
		}
		variants := 3
		for v := 0; v < variants; v++ {
			cr := &chunkReader{b: append([]byte{}, wire...), err: endErr, next: randChunk(rng.Int63()), with: rng.Intn(2) == 0}
			if v == 0 {
				cr.next = func(int) int { return 1 }
			}
			if rng.Intn(3) == 0 {
				cr.zero = 2 + rng.Intn(5)
			}
			rd := frame.NewReaderSize(cr, size)
			d, over := readAll(rd, len(wire)+1)
			if over {
				r.Fail("endless", "the reader returns more frames than the stream has bytes", q(wire))
				return
			}
			same := len(d.fs) == len(base.fs) && errClass(d.err, myErr) == errClass(base.err, myErr)
			for j := 0; same && j < len(d.fs); j++ {
				same = sameF(d.fs[j], base.fs[j])
			}
			if !same {
				r.Fail("fragmentation", "the same bytes decode differently when fragmented differently",
					map[string]any{"wire": q(wire), "one piece": fmt.Sprint(base.fs, base.err), "fragmented": fmt.Sprint(d.fs, d.err), "size": size, "variant": v})
				return
			}
			// stability: the frames handed out earlier must still be what they were when returned
			for j, g := range d.raw {
				if !sameF(fromLib(g), d.fs[j]) {
					r.Fail("unstable", "a returned frame changed while more was read", map[string]any{"was": d.fs[j].String(), "is": fromLib(g).String()})
					return
				}
			}
			// and be independent of each other
			for j, g := range d.raw {
				if g == nil {
					continue
				}
				for k := range g.Body {
					g.Body[k] ^= 0x55
				}
				_ = append(g.Body, 1, 2, 3, 4)
				g.Header.Add("mut", "x")
				if g.Header.Len() > 1 {
					k, _ := g.Header.GetAt(0)
					g.Header.Set(k, "changed")
				}
				for k := j + 1; k < len(d.raw); k++ {
					if !sameF(fromLib(d.raw[k]), d.fs[k]) {
						r.Fail("aliased", "changing one returned frame changed another", map[string]any{"changed": j, "affected": k, "wire": q(wire)})
						return
					}
				}
			}
			r.Count("variants_compared", 1)
			r.Eval(fmt.Sprintf("%s/%d/%d/%d", wire, v, size, i), len(wire) > 8)
		}
		r.Count([]string{"valid", "cut", "corrupt", "crlf"}[mode]+"_streams", 1)
		if i < 2 {
			r.Sample("stream", q(wire))
		}
	})
	// every cut position of some small streams
	r.Cases("cuts", r.N(150, 3000), func(i int, rng *rand.Rand) {
		var wire []byte
		var ends []int
		for j := 0; j < 3; j++ {
			f := randFrame(rng)
			if len(f.Body) > 40 {
				f.Body = nil
				f.H = nil
			}
			wire = append(wire, f.enc()...)
			ends = append(ends, len(wire))
		}
		if len(wire) > 3000 {
			return
		}
		for k := 0; k <= len(wire); k++ {
			rd := frame.NewReaderSize(&chunkReader{b: append([]byte{}, wire[:k]...), err: io.EOF, with: k%2 == 0}, 16+k%50)
			d, _ := readAll(rd, k+1)
			c := 0
			for _, e := range ends {
				if e <= k {
					c++
				}
			}
			if len(d.fs) != c {
				r.Fail("partial", fmt.Sprintf("cut at byte %d: %d complete frames in the stream, %d returned", k, c, len(d.fs)), q(wire[:k]))
				return
			}
			r.Count("cut_positions", 1)
		}
		r.Eval("cuts/"+string(wire), true)
	})
	r.Cases("huge", r.N(30, 1000), func(i int, rng *rand.Rand) { r.hugeBodies(rng) })
	r.Require("variants_compared", 10000)
	r.Require("cut_positions", 1000)
}

// refAll decodes with the independent decoder up to its first error or the end.
func refAll(b []byte) (fs []*F, end string, odd bool) {
	for {
		if len(b) == 0 {
			return fs, "stream", odd
		}
		f, n, o, err := dec(b)
		odd = odd || o
		if err == errMore {
			return fs, "any", odd // incomplete: some error is due, its kind is open
		}
		if err != nil {
			return fs, "any", odd
		}
		fs = append(fs, f)
		b = b[n:]
	}
}

var grammarPieces = []string{"\n", "\r\n", "\r", "\x00", ":", "\\", "SEND", "MESSAGE", "CONNECT", "CONNECTED", "ERROR", "STOMP", "ACK", "foo", "a:b", "a:", ":b", " ",
	"content-length:0", "content-length:1", "content-length:5", "content-length:05", "content-length:-1", "content-length:+1", "content-length: 1", "content-length:1 ",
	"content-length:", "content-length:0x1", "content-length:1e1", "content-length:4294967296", "content-length:18446744073709551617", "content-length:99999999999999999999",
	"content-length:1_0", "content-length:a", "hello", "hello\x00", "send", "SENDX", "SEND ", "Content-Length:3", "a\\cb:c\\\\d", "content-length:3\\n", "con\\tent", "x\\n:y",
	"\x00\n", "\n\n", "\r\n\r\n", "\n\r\n", "DISCONNECT", "NACK", "RECEIPT", "UNSUBSCRIBE", "SUBSCRIBE", "BEGIN", "COMMIT", "ABORT", "MESSAGEE", "\xff"}

func checkC03(r *R) {
	r.Rule("a case is one byte stream built from grammar pieces, from mutated valid frames, or from random bytes, judged call by call against an " +
		"independent decoder; non-trivial when at least one frame is accepted or a non-stream error is due; distinct by bytes")
	r.Assume("frames containing an escape sequence STOMP does not define may be accepted or rejected (1.0/1.1/1.2 differ)")
	judge := func(wire []byte, kind string, i int) {
		ref, end, odd := refAll(wire)
		cr := &chunkReader{b: append([]byte{}, wire...), err: io.EOF}
		rd := frame.NewReaderSize(cr, 16+i%5000)
		d, over := readAll(rd, len(wire)+1)
		if over {
			r.Fail("endless", "the reader returns more results than the stream has bytes", q(wire))
			return
		}
		if d.err == nil {
			r.Fail("noerr", "no error at the end of the stream", q(wire))
			return
		}
		if odd {
			r.Count("odd_escape_streams", 1)
			// the frames before the odd one must still agree as far as both go
			for j := 0; j < len(d.fs) && j < len(ref); j++ {
				if d.fs[j].Cmd != ref[j].Cmd {
					r.Fail("grammar", "accepted frame differs", map[string]any{"wire": q(wire), "want": ref[j].String(), "got": d.fs[j].String()})
					return
				}
			}
			return
		}
		for j := 0; j < len(d.fs) || j < len(ref); j++ {
			switch {
			case j >= len(ref):
				r.Fail("accepts-invalid", "the reader returned a frame where the grammar has none", map[string]any{"wire": q(wire), "got": d.fs[j].String(), "after": j})
				return
			case j >= len(d.fs):
				r.Fail("rejects-valid", "the reader rejected a valid frame", map[string]any{"wire": q(wire), "want": ref[j].String(), "err": fmt.Sprint(d.err)})
				return
			case !sameF(d.fs[j], ref[j]):
				r.Fail("grammar", "the reader decoded a frame differently", map[string]any{"wire": q(wire), "want": ref[j].String(), "got": d.fs[j].String()})
				return
			}
		}
		nf := 0
		for _, f := range ref {
			if f.Cmd != "" {
				nf++
			}
		}
		r.Count("frames_accepted", nf)
		if end == "any" {
			r.Count("streams_ending_in_error", 1)
		}
		r.Eval(string(wire), nf > 0 || end == "any")
		if i < 60 {
			r.Sample(kind, q(wire))
		}
	}
	r.Cases("pieces", r.N(150000, 3000000), func(i int, rng *rand.Rand) {
		var b bytes.Buffer
		for k := 1 + rng.Intn(14); k > 0; k-- {
			b.WriteString(grammarPieces[rng.Intn(len(grammarPieces))])
		}
		judge(b.Bytes(), "pieces", i)
	})
	r.Cases("structured", r.N(150000, 3000000), func(i int, rng *rand.Rand) {
		// a frame skeleton with one decision per grammar element
		var b bytes.Buffer
		eol := func() {
			if rng.Intn(4) == 0 {
				b.WriteString("\r\n")
			} else {
				b.WriteString("\n")
			}
		}
		for k := 1 + rng.Intn(3); k > 0; k-- {
			if rng.Intn(12) == 0 {
				b.WriteString([]string{"send", "FOO", "SEND\r", " SEND", "SEN", "MESSAGE2"}[rng.Intn(6)])
			} else {
				b.WriteString(commandList[rng.Intn(len(commandList))])
			}
			eol()
			for h := rng.Intn(4); h > 0; h-- {
				if rng.Intn(15) == 0 {
					b.WriteString([]string{"nocolon", ":novalue", ":", " :x", "\r:x"}[rng.Intn(5)])
				} else {
					b.WriteString(escRef(randName(rng)) + ":" + escRef(randText(rng, 3)))
				}
				eol()
			}
			body := randBody(rng, rng.Intn(12), rng.Intn(2) == 0)
			if rng.Intn(2) == 0 {
				cl := len(body)
				switch rng.Intn(6) {
				case 0:
					cl++
				case 1:
					cl--
				}
				s := fmt.Sprint(cl)
				if rng.Intn(12) == 0 {
					s = []string{"0" + s, "+" + s, s + " ", " " + s, "0x" + s, s + ".0", "", "4294967296", "-0", "1" + s + s + s + s + s + s + s + s + s + s + s}[rng.Intn(10)]
				}
				b.WriteString("content-length:" + s)
				eol()
			}
			eol()
			b.Write(body)
			if rng.Intn(12) != 0 {
				b.WriteByte(0)
			}
			for h := rng.Intn(3); h > 0; h-- {
				eol()
			}
		}
		judge(b.Bytes(), "structured", i)
	})
	r.Cases("mutated", r.N(60000, 1500000), func(i int, rng *rand.Rand) {
		var wire []byte
		for k := 1 + rng.Intn(3); k > 0; k-- {
			f := randFrame(rng)
			if len(f.Body) > 100 {
				f.Body = f.Body[:50]
			}
			wire = append(wire, f.enc()...)
		}
		for k := rng.Intn(5); k > 0 && len(wire) > 0; k-- {
			p := rng.Intn(len(wire))
			switch rng.Intn(4) {
			case 0:
				wire[p] = byte(rng.Intn(256))
			case 1:
				wire = append(wire[:p], wire[p+1:]...)
			case 2:
				wire = append(wire[:p:p], append([]byte(grammarPieces[rng.Intn(len(grammarPieces))]), wire[p:]...)...)
			default:
				wire = wire[:p]
			}
		}
		judge(wire, "mutated", i)
	})
	r.Cases("random", r.N(20000, 400000), func(i int, rng *rand.Rand) {
		b := make([]byte, rng.Intn(40))
		rng.Read(b)
		judge(b, "random", i)
	})
	r.Require("frames_accepted", 10000)
	r.Require("streams_ending_in_error", 10000)
}

type sinkWriter struct {
	buf   bytes.Buffer
	limit int // fail after this many bytes (-1 never)
	fail  int // number of failing calls
	calls int
	err   error
}

var errSink = errors.New("sink failed")

// what a failing sink returns
var sinkErrs = []error{errSink, errSink, io.ErrShortWrite, io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF, bufio.ErrBufferFull, os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN}

func (s *sinkWriter) Write(p []byte) (int, error) {
	s.calls++
	if s.limit >= 0 && s.buf.Len()+len(p) > s.limit {
		k := s.limit - s.buf.Len()
		if k < 0 {
			k = 0
		}
		s.buf.Write(p[:k])
		s.fail++
		return k, s.err
	}
	s.buf.Write(p)
	return len(p), nil
}

func checkC04(r *R) {
	r.Rule("a case is one frame (or heart-beat) written through a writer of random buffer size, alone or after others, to a healthy or failing sink; " +
		"non-trivial when some header name or value needs escaping, or the sink fails; distinct by frame, sizes and failure point")
	r.Cases("bytes", r.N(120000, 3000000), func(i int, rng *rand.Rand) {
		sink := &sinkWriter{limit: -1}
		ws := bufSizes[rng.Intn(len(bufSizes))]
		var w *frame.Writer
		if ws == 0 {
			w = frame.NewWriter(sink)
		} else {
			w = frame.NewWriterSize(sink, ws)
		}
		var want []byte
		nontrivial := false
		for k := 1 + rng.Intn(3); k > 0; k-- {
			f := randWrite(rng)
			if rng.Intn(6) == 0 && f.Cmd != "" { // names and values meant to break out
				f.H = append(f.H, [2]string{"inj\n\nx\x00SEND\ndestination:/queue/evil\n\n", "v\r\n\r\n\x00SEND\n\n\x00"})
			}
			g := toLib(f)
			if f.Cmd != "" && len(f.H) == 0 && rng.Intn(3) == 0 {
				g.Header = nil
			}
			before := fromLib(g)
			if f.Cmd == "" {
				before = &F{}
			}
			if err := w.Write(g); err != nil {
				r.Fail("error", "Write failed on a healthy sink", map[string]any{"frame": f.String(), "err": err.Error()})
				return
			}
			if g != nil && !sameF(before, fromLib(g)) {
				r.Fail("mutated", "writing changed the frame", map[string]any{"frame": f.String(), "now": fromLib(g).String()})
				return
			}
			want = append(want, f.enc()...)
			if !bytes.Equal(sink.buf.Bytes(), want) {
				r.Fail("bytes", "the bytes handed to the underlying writer when Write returned are not the wire form",
					map[string]any{"frame": f.String(), "want": q(want), "got": q(sink.buf.Bytes()), "size": ws})
				return
			}
			for _, e := range f.H {
				if strings.ContainsAny(e[0]+e[1], "\\\r\n:") {
					nontrivial = true
				}
			}
			r.Count("writes_compared", 1)
		}
		r.Eval(fmt.Sprintf("%d/%s", ws, want), nontrivial)
		if i < 3 {
			r.Sample("wire", q(want))
		}
	})
	r.Cases("large", r.N(40, 600), func(i int, rng *rand.Rand) {
		sink := &sinkWriter{limit: -1}
		ws := bufSizes[1+rng.Intn(len(bufSizes)-1)]
		w := frame.NewWriterSize(sink, ws)
		f := randWrite(rng)
		for f.Cmd == "" {
			f = randWrite(rng)
		}
		f.Body = make([]byte, 1<<(16+rng.Intn(8))+rng.Intn(3)-1)
		rng.Read(f.Body)
		if rng.Intn(4) == 0 { // one huge header value, too
			f.H = append(f.H, [2]string{"big", strings.Repeat("x:\\\n", 1+rng.Intn(100000))})
		}
		if err := w.Write(toLib(f)); err != nil {
			r.Fail("error", "Write failed on a healthy sink", err.Error())
			return
		}
		if !bytes.Equal(sink.buf.Bytes(), f.enc()) {
			r.Fail("bytes", fmt.Sprintf("the bytes handed to the underlying writer are not the wire form of a frame with a body of %d bytes", len(f.Body)),
				map[string]any{"want bytes": len(f.enc()), "got bytes": sink.buf.Len(), "size": ws})
			return
		}
		r.Count("writes_compared", 1)
		r.Eval(fmt.Sprintf("l/%d/%d/%s", ws, len(f.Body), f.Cmd), true)
	})
	r.Cases("failing", r.N(60000, 1500000), func(i int, rng *rand.Rand) {
		f := randWrite(rng)
		wire := f.enc()
		limit := rng.Intn(len(wire))
		pre := rng.Intn(3)
		sink := &sinkWriter{limit: -1}
		ws := bufSizes[1+rng.Intn(len(bufSizes)-1)]
		w := frame.NewWriterSize(sink, ws)
		for k := 0; k < pre; k++ {
			if err := w.Write(toLib(mk("SEND", "a", "b"))); err != nil {
				r.Fail("error", "Write failed on a healthy sink", err.Error())
				return
			}
		}
		sink.limit, sink.err = sink.buf.Len()+limit, sinkErrs[rng.Intn(len(sinkErrs))]
		err := w.Write(toLib(f))
		if err == nil {
			r.Fail("swallowed", "the underlying writer failed but Write returned nil",
				map[string]any{"frame": f.String(), "failed after": limit, "wire bytes": len(wire), "size": ws, "failing calls": sink.fail, "error": fmt.Sprint(sink.err)})
			return
		}
		r.Count("failures_reported", 1)
		r.Eval(fmt.Sprintf("f/%d/%d/%d/%s", ws, limit, pre, wire), true)
	})
	r.Require("writes_compared", 10000)
	r.Require("failures_reported", 10000)
}

type hdrModel [][2]string

func (m hdrModel) first(k string) int {
	for i, e := range m {
		if e[0] == k {
			return i
		}
	}
	return -1
}

func (m hdrModel) equal(h *frame.Header, keys []string) string {
	if h.Len() != len(m) {
		return fmt.Sprintf("Len %d, want %d", h.Len(), len(m))
	}
	for i := range m {
		k, v := h.GetAt(i)
		if k != m[i][0] || v != m[i][1] {
			return fmt.Sprintf("entry %d is %q:%q, want %q", i, k, v, m[i])
		}
	}
	for _, k := range keys {
		v, ok := h.Contains(k)
		j := m.first(k)
		if ok != (j >= 0) || (ok && v != m[j][1]) || h.Get(k) != v || (!ok && v != "") {
			return fmt.Sprintf("Contains(%q) = %q,%v Get = %q, model %v", k, v, ok, h.Get(k), m)
		}
		var all []string
		for _, e := range m {
			if e[0] == k {
				all = append(all, e[1])
			}
		}
		got := h.GetAll(k)
		if len(got) != len(all) {
			return fmt.Sprintf("GetAll(%q) = %q, want %q", k, got, all)
		}
		for i := range all {
			if got[i] != all[i] {
				return fmt.Sprintf("GetAll(%q) = %q, want %q", k, got, all)
			}
		}
	}
	n, ok, err := h.ContentLength()
	j := m.first("content-length")
	if j < 0 {
		if ok || err != nil || n != 0 {
			return fmt.Sprintf("ContentLength = %d,%v,%v without the header", n, ok, err)
		}
	} else {
		want, valid := refLen(m[j][1])
		if !ok || valid != (err == nil) || (valid && int64(n) != want) {
			return fmt.Sprintf("ContentLength = %d,%v,%v for %q", n, ok, err, m[j][1])
		}
	}
	return ""
}

func refLen(s string) (int64, bool) {
	if s == "" {
		return 0, false
	}
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	v, _ := new(big.Int).SetString(s, 10)
	if v.BitLen() > 32 {
		return 0, false
	}
	return v.Int64(), true
}

func checkC05(r *R) {
	r.Rule("a case is a random sequence of 5-40 header operations, with clones taken in between and then changed, compared with a list model " +
		"after every step; non-trivial when some key occurs twice in the header at some point; distinct by the operation log")
	keys := []string{"a", "b", "A", "", "content-length", "ack", "x y", "a:", "receipt", "é"}
	vals := []string{"", "1", "x", "y", "0", "42", "-1", "4294967295", "4294967296", "+3", " 3", "0007", "1e3", "long value with spaces", "\n"}
	r.Cases("ops", r.N(60000, 1500000), func(i int, rng *rand.Rand) {
		var h *frame.Header
		var m hdrModel
		var log []string
		var f *frame.Frame
		switch rng.Intn(3) {
		case 0:
			h = &frame.Header{}
			f = &frame.Frame{Command: "SEND", Header: h}
		case 1:
			k, v := keys[rng.Intn(len(keys))], vals[rng.Intn(len(vals))]
			h = frame.NewHeader(k, v, "b", "z")
			m = hdrModel{{k, v}, {"b", "z"}}
			f = &frame.Frame{Command: "SEND", Header: h}
		default:
			k, v := keys[rng.Intn(len(keys))], vals[rng.Intn(len(vals))]
			f = frame.New("SEND", k, v, "a", "z")
			h = f.Header
			m = hdrModel{{k, v}, {"a", "z"}}
		}
		size := rng.Intn(20)
		if rng.Intn(10) == 0 {
			size = 1 << rng.Intn(13)
		}
		if rng.Intn(100) == 0 {
			size = 60000 + rng.Intn(20000)
		}
		f.Body = randBody(rng, size, true)
		type snap struct {
			h    *frame.Header
			m    hdrModel
			f    *frame.Frame
			body []byte
		}
		var snaps []snap
		dup := false
		for n := 5 + rng.Intn(36); n > 0; n-- {
			k, v := keys[rng.Intn(len(keys))], vals[rng.Intn(len(vals))]
			op := rng.Intn(9)
			switch op {
			case 0, 1, 2:
				h.Add(k, v)
				if m.first(k) >= 0 {
					dup = true
				}
				m = append(m, [2]string{k, v})
				log = append(log, fmt.Sprintf("Add(%q,%q)", k, v))
			case 3, 4:
				h.Set(k, v)
				if j := m.first(k); j >= 0 {
					m[j][1] = v
				} else {
					m = append(m, [2]string{k, v})
				}
				log = append(log, fmt.Sprintf("Set(%q,%q)", k, v))
			case 5:
				h.Del(k)
				var m2 hdrModel
				for _, e := range m {
					if e[0] != k {
						m2 = append(m2, e)
					}
				}
				m = m2
				log = append(log, fmt.Sprintf("Del(%q)", k))
			case 6:
				o := frame.NewHeader(k, v, k, v+"2")
				if rng.Intn(4) == 0 {
					o = nil
					h.AddHeader(nil)
					log = append(log, "AddHeader(nil)")
				} else {
					h.AddHeader(o)
					m = append(m, [2]string{k, v}, [2]string{k, v + "2"})
					dup = true
					log = append(log, fmt.Sprintf("AddHeader(%q)", k))
					o.Set(k, "later")
					o.Add("more", "x")
				}
			default:
				if len(snaps) < 4 {
					var s snap
					if op == 7 {
						s = snap{h: h.Clone(), m: append(hdrModel{}, m...)}
					} else {
						c := f.Clone()
						if c.Command != f.Command || !bytes.Equal(c.Body, f.Body) {
							r.Fail("clone", "a frame clone differs from the original", map[string]any{"ops": log})
							return
						}
						s = snap{h: c.Header, m: append(hdrModel{}, m...), f: c, body: append([]byte{}, f.Body...)}
					}
					log = append(log, "Clone")
					snaps = append(snaps, s)
					if rng.Intn(2) == 0 { // continue on the clone, keep the original as the snapshot
						snaps[len(snaps)-1], h = snap{h: h, m: append(hdrModel{}, m...), f: f, body: s.body}, s.h
						if s.f != nil {
							f = s.f
						} else {
							snaps[len(snaps)-1].f = nil
							f = &frame.Frame{Command: "SEND", Header: h, Body: append([]byte{}, f.Body...)}
						}
					}
				}
				for j := range f.Body {
					f.Body[j]++
				}
				_ = append(f.Body, 'x')
			}
			if d := m.equal(h, keys); d != "" {
				r.Fail("model", "header disagrees with the list model: "+d, map[string]any{"ops": log})
				return
			}
			for _, s := range snaps {
				if d := s.m.equal(s.h, keys); d != "" {
					r.Fail("clone-affected", "a clone (or the original) changed with the other: "+d, map[string]any{"ops": log})
					return
				}
				if s.f != nil && !bytes.Equal(s.f.Body, s.body) {
					r.Fail("clone-body", "the body of a clone (or the original) changed with the other", map[string]any{"ops": log})
					return
				}
			}
			r.Count("steps_compared", 1)
		}
		r.Count("clones", len(snaps))
		r.Eval(strings.Join(log, ";"), dup)
		if i < 2 {
			r.Sample("ops", strings.Join(log, "; "))
		}
	})
	r.Require("steps_compared", 10000)
	r.Require("clones", 1000)
}

func refHeartBeat(s string) (a, b time.Duration, ok bool) {
	p := strings.Split(s, ",")
	if len(p) != 2 {
		return
	}
	var d [2]time.Duration
	for i, x := range p {
		if x == "" {
			return
		}
		for _, c := range []byte(x) {
			if c < '0' || c > '9' {
				return
			}
		}
		v, _ := new(big.Int).SetString(x, 10)
		v.Mul(v, big.NewInt(int64(time.Millisecond)))
		if !v.IsInt64() {
			return
		}
		d[i] = time.Duration(v.Int64())
	}
	return d[0], d[1], true
}

func checkC06(r *R) {
	r.Rule("a case is one string, judged against big-integer arithmetic; enumerated: every string of up to 5 characters over an alphabet of digits, comma, " +
		"sign, blank, LF and letter; generated: numbers around every limit, and mutations; distinct by string; non-trivial when it contains a comma and a digit")
	judge := func(s string) {
		a, b, err := frame.ParseHeartBeat(s)
		wa, wb, ok := refHeartBeat(s)
		if ok != (err == nil) || (ok && (a != wa || b != wb)) {
			r.Fail("parse", fmt.Sprintf("ParseHeartBeat(%q) = %v, %v, %v; want ok=%v %v %v", s, a, b, err, ok, wa, wb), s)
			return
		}
		if ok {
			r.Count("accepted", 1)
		} else {
			r.Count("rejected", 1)
		}
		r.Eval(s, strings.Contains(s, ",") && strings.ContainsAny(s, "0123456789"))
		if len(s) > 10 {
			r.Sample("string", s)
		}
	}
	alpha := "0179,+- \nx"
	r.Cases("enum", 10, func(i int, rng *rand.Rand) {
		var rec func(p string)
		rec = func(p string) {
			judge(p)
			if len(p) < 5 {
				for k := range alpha {
					rec(p + alpha[k:k+1])
				}
			}
		}
		if i == 0 {
			judge("")
		}
		rec(alpha[i : i+1])
	})
	lims := []string{"9223372036854", "9223372036855", "9223372036853", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
		"4294967295", "4294967296", "2147483648", "0", "00", "007", "99999999999999999999999999", "1", "1000", "60000", "9223372036854775", "18446744073709552", "36893488147419103232",
		"27670116110564327424", "9223372036854775809"}
	r.Cases("limits", r.N(60000, 1500000), func(i int, rng *rand.Rand) {
		num := func() string {
			switch rng.Intn(4) {
			case 0:
				return fmt.Sprint(rng.Int63n(1 << uint(1+rng.Intn(62))))
			case 1:
				v, _ := new(big.Int).SetString(lims[rng.Intn(len(lims))], 10)
				v.Add(v, big.NewInt(int64(rng.Intn(5)-2)))
				if v.Sign() < 0 {
					return "0"
				}
				return strings.Repeat("0", rng.Intn(2)*rng.Intn(30)) + v.String()
			case 2:
				return lims[rng.Intn(len(lims))]
			default:
				s := ""
				for k := 1 + rng.Intn(24); k > 0; k-- {
					s += fmt.Sprint(rng.Intn(10))
				}
				return s
			}
		}
		s := num() + "," + num()
		if rng.Intn(3) == 0 {
			p := rng.Intn(len(s) + 1)
			s = s[:p] + []string{" ", ",", "+", "-", "\n", "\r\n", "x", ".", "e3", "_", "\x00", "٣", "ms"}[rng.Intn(13)] + s[p:]
		}
		judge(s)
	})
	r.Require("accepted", 1000)
	r.Require("rejected", 1000)
}
