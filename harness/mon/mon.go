// Package mon has monitors that stand between go-zserio's encoders and decoders
// and the bit stream: they keep an independent record of every bit that passes,
// check the stream contract online and can fail at any operation.
package mon

import (
	"errors"
	"fmt"
	"io"
)

// ErrInjected is the fault the monitors inject.
var ErrInjected = errors.New("injected fault")

// Op is one recorded stream operation.
type Op struct {
	Kind byte // b bits, y byte, w write, o bool, a align
	N    int  // bits transferred
	Pos  int  // position before
}

// W is a monitored bit writer. It implements zserio.Writer.
type W struct {
	bits   []byte
	Start  int // bits present before the object under test
	Ops    int
	Log    []Op
	FailAt int  // index of the operation that fails, -1: none
	Once   bool // later operations succeed again
	After  int  // operations attempted after the failure
	failed bool
	Breach string // first contract violation by the caller
	Hook   func() // called before every operation
}

// NewW gives a writer positioned at bit pos.
func NewW(pos int) *W {
	return &W{bits: make([]byte, pos, pos+256), Start: pos, FailAt: -1}
}

// Len is the number of bits written by the object under test.
func (w *W) Len() int { return len(w.bits) - w.Start }

// Pos is the current position.
func (w *W) Pos() int { return len(w.bits) }

// Bit gives bit i of the object under test.
func (w *W) Bit(i int) byte { return w.bits[w.Start+i] }

// Bytes packs the bits written by the object under test.
func (w *W) Bytes() []byte { return pack(w.bits[w.Start:]) }

// AllBytes packs everything.
func (w *W) AllBytes() []byte { return pack(w.bits) }

func pack(b []byte) []byte {
	out := make([]byte, (len(b)+7)/8)
	for i, x := range b {
		if x != 0 {
			out[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return out
}

func (w *W) step(kind byte, n int) error {
	if w.Hook != nil {
		w.Hook()
	}
	if w.failed && !w.Once {
		w.After++
		return ErrInjected
	}
	i := w.Ops
	w.Ops++
	if i == w.FailAt {
		w.failed = true
		return ErrInjected
	}
	if len(w.Log) < 64 {
		w.Log = append(w.Log, Op{kind, n, len(w.bits)})
	}
	return nil
}

func (w *W) put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		w.bits = append(w.bits, byte(v>>uint(i))&1)
	}
}

func (w *W) breach(f string, a ...any) {
	if w.Breach == "" {
		w.Breach = fmt.Sprintf(f, a...)
	}
}

// WriteByte implements io.ByteWriter.
func (w *W) WriteByte(b byte) error {
	if err := w.step('y', 8); err != nil {
		return err
	}
	w.put(uint64(b), 8)
	return nil
}

// Write implements io.Writer.
func (w *W) Write(p []byte) (int, error) {
	if err := w.step('w', 8*len(p)); err != nil {
		return 0, err
	}
	for _, b := range p {
		w.put(uint64(b), 8)
	}
	return len(p), nil
}

// WriteBits writes the n lowest bits of r.
func (w *W) WriteBits(r uint64, n uint8) error {
	if err := w.step('b', int(n)); err != nil {
		return err
	}
	if n > 64 {
		w.breach("WriteBits with %d bits", n)
		n = 64
	}
	w.put(r, int(n))
	return nil
}

// WriteBitsUnsafe is WriteBits for values without higher bits.
func (w *W) WriteBitsUnsafe(r uint64, n uint8) error {
	if n < 64 && r>>n != 0 {
		w.breach("WriteBitsUnsafe(%#x, %d): bits beyond the width corrupt the neighbouring data", r, n)
	}
	return w.WriteBits(r, n)
}

// WriteBool writes one bit.
func (w *W) WriteBool(b bool) error {
	if err := w.step('o', 1); err != nil {
		return err
	}
	if b {
		w.put(1, 1)
	} else {
		w.put(0, 1)
	}
	return nil
}

// Align pads to a boundary.
func (w *W) Align(boundary uint8) (int64, error) {
	if err := w.step('a', 0); err != nil {
		return 0, err
	}
	if boundary > 0 {
		for len(w.bits)%int(boundary) != 0 {
			w.bits = append(w.bits, 0)
		}
	}
	return int64(len(w.bits)), nil
}

// R is a monitored bit reader. It implements zserio.Reader.
type R struct {
	data   []byte
	nbits  int
	pos    int
	Ops    int
	FailAt int
	Once   bool  // later operations succeed again
	Err    error // the fault injected, ErrInjected by default
	Failed bool
	After  int
	EOFs   int
	Breach string
	Hook   func()
	// MaxOps stops runaway decoders: beyond it every operation fails and
	// Runaway is set.
	MaxOps  int
	Runaway bool
}

// NewR reads nbits bits of data, starting at bit pos.
func NewR(data []byte, nbits, pos int) *R {
	return &R{data: data, nbits: nbits, pos: pos, FailAt: -1}
}

// Pos is the current bit position.
func (r *R) Pos() int { return r.pos }

func (r *R) step() error {
	if r.Hook != nil {
		r.Hook()
	}
	if r.Failed && !r.Once {
		r.After++
		return r.fault()
	}
	i := r.Ops
	r.Ops++
	if i == r.FailAt {
		r.Failed = true
		return r.fault()
	}
	if r.MaxOps > 0 && r.Ops > r.MaxOps {
		r.Runaway = true
		return io.ErrUnexpectedEOF
	}
	return nil
}

func (r *R) fault() error {
	if r.Err != nil {
		return r.Err
	}
	return ErrInjected
}

func (r *R) get(n int) (uint64, error) {
	if r.pos+n > r.nbits {
		r.EOFs++
		if r.pos == r.nbits {
			return 0, io.EOF
		}
		r.pos = r.nbits
		return 0, io.ErrUnexpectedEOF
	}
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<1 | uint64(r.data[r.pos/8]>>(7-uint(r.pos%8))&1)
		r.pos++
	}
	return v, nil
}

// ReadByte implements io.ByteReader.
func (r *R) ReadByte() (byte, error) {
	if err := r.step(); err != nil {
		return 0, err
	}
	v, err := r.get(8)
	return byte(v), err
}

// Read implements io.Reader.
func (r *R) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if err := r.step(); err != nil {
		return 0, err
	}
	for i := range p {
		v, err := r.get(8)
		if err != nil {
			if i > 0 {
				return i, nil
			}
			return i, err
		}
		p[i] = byte(v)
	}
	return len(p), nil
}

// ReadBits reads n bits.
func (r *R) ReadBits(n uint8) (uint64, error) {
	if err := r.step(); err != nil {
		return 0, err
	}
	if n > 64 {
		if r.Breach == "" {
			r.Breach = fmt.Sprintf("ReadBits with %d bits", n)
		}
		n = 64
	}
	return r.get(int(n))
}

// ReadBool reads one bit.
func (r *R) ReadBool() (bool, error) {
	if err := r.step(); err != nil {
		return false, err
	}
	v, err := r.get(1)
	return v != 0, err
}

// Align skips to a boundary.
func (r *R) Align(boundary uint8) (int64, error) {
	if err := r.step(); err != nil {
		return 0, err
	}
	for boundary > 0 && r.pos%int(boundary) != 0 {
		if _, err := r.get(1); err != nil {
			return 0, err
		}
	}
	return int64(r.pos), nil
}

// FailingSink is an io.Writer and io.ByteWriter that fails once Limit bytes
// have been accepted.
type FailingSink struct {
	Limit int
	Once  bool // what comes after the failing operation is accepted again
	Got   []byte
	Hits  int
}

// Write implements io.Writer.
func (s *FailingSink) Write(p []byte) (int, error) {
	room := s.Limit - len(s.Got)
	if room < len(p) && !(s.Once && s.Hits > 0) {
		if room < 0 {
			room = 0
		}
		s.Got = append(s.Got, p[:room]...)
		s.Hits++
		return room, ErrInjected
	}
	s.Got = append(s.Got, p...)
	return len(p), nil
}

// WriteByte implements io.ByteWriter.
func (s *FailingSink) WriteByte(b byte) error {
	_, err := s.Write([]byte{b})
	return err
}

// Trickle is a byte source that returns its data in small, irregular pieces.
type Trickle struct {
	Data []byte
	Err  error // delivered instead of io.EOF
	n    int
	// WithLast delivers the error together with the last bytes.
	WithLast bool
	// More follows Err, which is delivered once.
	More []byte
}

func (t *Trickle) end() error {
	if t.Err != nil {
		err := t.Err
		if t.More != nil {
			t.Data, t.More, t.Err = t.More, nil, nil
		}
		return err
	}
	return io.EOF
}

// Read implements io.Reader.
func (t *Trickle) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(t.Data) == 0 {
		return 0, t.end()
	}
	t.n++
	k := 1 + t.n%3
	if k > len(p) {
		k = len(p)
	}
	if k > len(t.Data) {
		k = len(t.Data)
	}
	copy(p, t.Data[:k])
	t.Data = t.Data[k:]
	if len(t.Data) == 0 && t.WithLast {
		return k, t.end()
	}
	return k, nil
}

// ReadByte implements io.ByteReader.
func (t *Trickle) ReadByte() (byte, error) {
	if len(t.Data) == 0 {
		return 0, t.end()
	}
	b := t.Data[0]
	t.Data = t.Data[1:]
	return b, nil
}
