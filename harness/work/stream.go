package work

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/woven-planet/go-zserio/zstream"

	"github.com/woven-planet/go-zserio/verif/mon"
)

// sop is one operation on a bit stream.
type sop struct {
	k byte // b bits, u unsafe bits, o bool, y byte, w bytes, a align
	n uint8
	v uint64
	p []byte
}

func (o sop) String() string {
	switch o.k {
	case 'b':
		return fmt.Sprintf("bits(%#x,%d)", o.v, o.n)
	case 'u':
		return fmt.Sprintf("unsafe(%#x,%d)", o.v, o.n)
	case 'o':
		return fmt.Sprintf("bool(%d)", o.v)
	case 'y':
		return fmt.Sprintf("byte(%#x)", o.v)
	case 'w':
		return fmt.Sprintf("bytes(%d)", len(o.p))
	}
	return fmt.Sprintf("align(%d)", o.n)
}

func opsString(ops []sop) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	t := strings.Join(s, " ")
	if len(t) > 600 {
		t = "..." + t[len(t)-600:]
	}
	return t
}

// randOps draws operations with a preference drawn per sequence, so that
// sequences of mostly one kind occur.
func randOps(r *rand.Rand, n int) []sop {
	kinds := "bbuoywa"
	if r.Intn(3) == 0 {
		kinds = string(kinds[r.Intn(7)]) + string(kinds[r.Intn(7)])
	}
	var out []sop
	for i := 0; i < n; i++ {
		o := sop{k: kinds[r.Intn(len(kinds))], v: r.Uint64()}
		switch o.k {
		case 'b', 'u':
			switch r.Intn(4) {
			case 0:
				o.n = uint8(r.Intn(65))
			case 1:
				o.n = uint8(8 * r.Intn(9))
			default:
				o.n = uint8(r.Intn(18))
			}
			if o.n < 64 && (o.k == 'u' || r.Intn(4) > 0) {
				o.v &= 1<<o.n - 1
			}
			if r.Intn(8) == 0 {
				o.v = 0
				if r.Intn(2) == 0 {
					o.v = 1<<o.n - 1
					if o.n == 64 {
						o.v = ^uint64(0)
					}
				}
			}
		case 'o':
			o.v &= 1
		case 'y':
			o.v &= 0xff
		case 'w':
			o.p = make([]byte, []int{0, 1, 2, 3, 8, 9, 40, 300}[r.Intn(8)])
			r.Read(o.p)
		case 'a':
			o.n = uint8(r.Intn(256))
			if r.Intn(3) > 0 {
				o.n = []uint8{0, 1, 2, 3, 4, 7, 8, 8, 8, 16, 24, 32, 64, 65, 100, 127, 128, 129, 200, 255}[r.Intn(20)]
			}
		}
		out = append(out, o)
	}
	return out
}

func alignPad(pos int, n uint8) int {
	if n == 0 || pos%int(n) == 0 {
		return 0
	}
	return int(n) - pos%int(n)
}

type bitWriter interface {
	Write([]byte) (int, error)
	WriteByte(byte) error
	WriteBits(uint64, uint8) error
	WriteBitsUnsafe(uint64, uint8) error
	WriteBool(bool) error
	Align(uint8) (int64, error)
}

func (o sop) write(w bitWriter) (pos int64, n int, err error) {
	pos, n = -1, -1
	switch o.k {
	case 'b':
		err = w.WriteBits(o.v, o.n)
	case 'u':
		err = w.WriteBitsUnsafe(o.v, o.n)
	case 'o':
		err = w.WriteBool(o.v == 1)
	case 'y':
		err = w.WriteByte(byte(o.v))
	case 'w':
		n, err = w.Write(o.p)
	case 'a':
		pos, err = w.Align(o.n)
	}
	return
}

func (o sop) model(pos int) bitstr {
	switch o.k {
	case 'b', 'u':
		return num(o.v, int(o.n))
	case 'o':
		return num(o.v, 1)
	case 'y':
		return num(o.v, 8)
	case 'w':
		return octets(o.p)
	}
	return bitstr(strings.Repeat("0", alignPad(pos, o.n)))
}

// sources are ways to deliver the same bytes.
var sources = []struct {
	name string
	open func(b []byte, r *rand.Rand) zstream.Reader
}{
	{"bytes.Reader", func(b []byte, r *rand.Rand) zstream.Reader { return bytes.NewReader(b) }},
	{"bufio.Reader", func(b []byte, r *rand.Rand) zstream.Reader { return bufio.NewReaderSize(bytes.NewReader(b), 16) }},
	{"trickle", func(b []byte, r *rand.Rand) zstream.Reader {
		return &mon.Trickle{Data: append([]byte{}, b...), WithLast: r.Intn(2) == 0}
	}},
	{"bytes.Buffer", func(b []byte, r *rand.Rand) zstream.Reader { return bytes.NewBuffer(append([]byte{}, b...)) }},
}

// streams drives the bit stream with random operation logs beside a model.
func (c *Ctx) streams() {
	for i := 0; i < c.N(6000, 200000); i++ {
		if i%c.Shards != c.Shard {
			continue
		}
		r := c.Rng(fmt.Sprintf("stream %d", i))
		ops := randOps(r, 1+r.Intn(40))
		c.stream(fmt.Sprint(i), r, ops)
	}
	if c.Shard == 0 {
		c.longStream()
	}
	// every boundary at every position up to twice the boundary
	for n := 0; n < 256; n++ {
		if n%c.Shards != c.Shard {
			continue
		}
		for pos := 0; pos <= 2*n+9; pos++ {
			if !c.Thorough() && n > 40 && pos%7 != n%7 {
				continue
			}
			var ops []sop
			for p := pos; p > 0; p -= 64 {
				ops = append(ops, sop{k: 'b', n: uint8(min(p, 64)), v: ^uint64(0)})
			}
			ops = append(ops, sop{k: 'a', n: uint8(n)}, sop{k: 'b', n: 3, v: 5})
			c.stream(fmt.Sprintf("align %d at %d", n, pos), c.Rng("align"), ops)
			c.Count("alignments", 1)
		}
	}
}

func (c *Ctx) stream(id string, r *rand.Rand, ops []sop) {
	key := "runtime/stream"
	c.Journal(key + " " + opsString(ops))
	fail := func(what string, upto int, f string, a ...any) {
		c.Violation(key+"/"+what, fmt.Sprintf(f, a...)+" after "+opsString(ops[:upto]), map[string]any{"ops": opsString(ops), "id": id})
	}
	defer func() {
		if p := recover(); p != nil {
			fail("panic", len(ops), "panic: %v", p)
		}
	}()
	var buf bytes.Buffer
	var all bitstr
	var marks []int
	w := zstream.NewWriter(&buf)
	for j, o := range ops {
		pos, n, err := o.write(w)
		all += o.model(len(all))
		marks = append(marks, len(all))
		c.Count("writer_operations", 1)
		if err != nil {
			fail("write", j+1, "writing failed: %v", err)
			return
		}
		if n >= 0 && n != len(o.p) {
			fail("write", j+1, "writing %d bytes reports %d", len(o.p), n)
			return
		}
		if pos >= 0 && pos != int64(len(all)) {
			fail("position", j+1, "align reports position %d, %d bits were written", pos, len(all))
			return
		}
		if w.BitPosition() != int64(len(all)) {
			fail("position", j+1, "the writer's position is %d, %d bits were written", w.BitPosition(), len(all))
			return
		}
		// complete bytes never change any more
		got := octets(buf.Bytes())
		if len(got) > len(all) || got != all[:len(got)] {
			fail("bytes", j+1, "the stream holds %s, right is %s", got, all)
			return
		}
	}
	if err := w.Close(); err != nil {
		fail("close", len(ops), "closing failed: %v", err)
		return
	}
	if !bytes.Equal(buf.Bytes(), all.pack()) {
		fail("bytes", len(ops), "the stream is %x, right is %x", clip(buf.Bytes()), clip(all.pack()))
		return
	}
	c.Eval(fmt.Sprintf("%s %x %d", opsString(ops), all.pack(), len(all)), len(all) > 0)
	c.Count("bits_written", int64(len(all)))
	if len(ops) < 8 {
		c.Sample(fmt.Sprintf("%s -> %x", opsString(ops), clip(buf.Bytes())))
	}
	// the same operations read it back
	for _, s := range sources {
		rd := zstream.NewReader(s.open(buf.Bytes(), r))
		pos := 0
		for j, o := range ops {
			if what := readOp(rd, o, all, &pos); what != "" {
				fail("read", j+1, "reading back from %s: %s", s.name, what)
				return
			}
			c.Count("reader_operations", 1)
		}
		// any other way to cut the bits gives the same bits
		rd = zstream.NewReader(s.open(buf.Bytes(), r))
		pos = 0
		full := octets(buf.Bytes())
		var done []sop
		for pos < len(full) {
			o := randOps(r, 1)[0]
			need := len(o.model(pos))
			if need > len(full)-pos {
				// beyond the end: an error, and nothing else
				if o.k == 'w' {
					o = sop{k: 'b', n: uint8(min(64, len(full)-pos))}
				} else {
					if what := readPast(rd, o); what != "" {
						fail("end", len(ops), "reading %s at bit %d of %d: %s", o, pos, len(full), what)
						return
					}
					c.Count("reads_past_end", 1)
					break
				}
			}
			done = append(done, o)
			if what := readOp(rd, o, full, &pos); what != "" {
				fail("recut", len(ops), "reading %s as %s: %s", s.name, opsString(done), what)
				return
			}
		}
	}
}

func readPast(rd *zstream.BitReader, o sop) string {
	var err error
	switch o.k {
	case 'b', 'u':
		_, err = rd.ReadBits(o.n)
	case 'o':
		_, err = rd.ReadBool()
	case 'y':
		_, err = rd.ReadByte()
	case 'a':
		_, err = rd.Align(o.n)
	}
	if err == nil {
		return "no error beyond the end"
	}
	return ""
}

// readOp reads what the operation wrote and compares it with the model.
func readOp(rd *zstream.BitReader, o sop, all bitstr, pos *int) string {
	var want bitstr
	if o.k == 'a' {
		want = all[*pos : *pos+alignPad(*pos, o.n)]
	} else {
		want = all[*pos : *pos+len(o.model(*pos))]
	}
	*pos += len(want)
	var got bitstr
	switch o.k {
	case 'b', 'u':
		v, err := rd.ReadBits(o.n)
		if err != nil {
			return fmt.Sprintf("reading %d bits failed: %v", o.n, err)
		}
		if o.n < 64 && v>>o.n != 0 {
			return fmt.Sprintf("reading %d bits gave %#x", o.n, v)
		}
		got = num(v, int(o.n))
	case 'o':
		v, err := rd.ReadBool()
		if err != nil {
			return fmt.Sprintf("reading a bool failed: %v", err)
		}
		got = "0"
		if v {
			got = "1"
		}
	case 'y':
		v, err := rd.ReadByte()
		if err != nil {
			return fmt.Sprintf("reading a byte failed: %v", err)
		}
		got = num(uint64(v), 8)
	case 'w':
		b := make([]byte, len(o.p))
		if _, err := io.ReadFull(rd, b); err != nil {
			return fmt.Sprintf("reading %d bytes failed: %v", len(b), err)
		}
		got = octets(b)
	case 'a':
		p, err := rd.Align(o.n)
		if err != nil {
			return fmt.Sprintf("aligning to %d failed: %v", o.n, err)
		}
		if p != int64(*pos) {
			return fmt.Sprintf("aligning to %d reports position %d, %d bits were read", o.n, p, *pos)
		}
		return ""
	}
	if got != want {
		return fmt.Sprintf("%s gave %s, right is %s", o, got, want)
	}
	if p, err := rd.Align(1); err != nil || p != int64(*pos) {
		return fmt.Sprintf("the reader's position is %d (%v), %d bits were read", p, err, *pos)
	}
	return ""
}

// sink takes bytes without keeping them.
type sink struct{ n int64 }

func (s *sink) Write(p []byte) (int, error) { s.n += int64(len(p)); return len(p), nil }
func (s *sink) WriteByte(byte) error        { s.n++; return nil }

// zeros is an endless source.
type zeros struct{}

func (zeros) Read(p []byte) (int, error) { clear(p); return len(p), nil }
func (zeros) ReadByte() (byte, error)    { return 0, nil }

// longStream looks at positions beyond 2^31 and 2^32 bits.
func (c *Ctx) longStream() {
	chunk := make([]byte, 1<<20)
	s := &sink{}
	w := zstream.NewWriter(s)
	rd := zstream.NewReader(zeros{})
	bits := int64(0)
	for i := 0; i < 600; i++ {
		w.Write(chunk)
		io.ReadFull(rd, chunk)
		bits += 8 << 20
		if i%100 == 50 {
			w.WriteBits(1, 3)
			rd.ReadBits(3)
			bits += 3
			for _, n := range []uint8{8, 255, 7, 64, 8} {
				p, err := w.Align(n)
				q, err2 := rd.Align(n)
				bits += int64(alignPad64(bits, n))
				if p != bits || q != bits || err != nil || err2 != nil || w.BitPosition() != bits {
					c.Violation("runtime/stream/long", fmt.Sprintf("after %d bits and align(%d): writer %d %d (%v), reader %d (%v)", bits, n, p, w.BitPosition(), err, q, err2), nil)
					return
				}
				c.Eval(fmt.Sprintf("long %d", bits), true)
			}
		}
	}
	if err := w.Close(); err != nil || s.n != (bits+7)/8 {
		c.Violation("runtime/stream/long", fmt.Sprintf("%d bits gave %d bytes (%v)", bits, s.n, err), nil)
	}
	c.Count("longest_stream_bits", bits)
}

func alignPad64(pos int64, n uint8) int {
	if m := int(pos % int64(n)); m != 0 {
		return int(n) - m
	}
	return 0
}
