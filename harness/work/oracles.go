package work

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"

	"github.com/woven-planet/go-zserio/verif/mon"
	"github.com/woven-planet/go-zserio/verif/zs"
)

// refAt gives the reference encoding at a bit position, without the leading bits.
func (k *Case) refAt(pos int) (bits []byte, n int) {
	e, err := zs.EncodeAt(k.V, pos)
	if err != nil {
		panic(err)
	}
	return e.W.Tail(pos), e.W.Len() - pos
}

func bitDiff(want, got []byte, wn, gn int) string {
	i := 0
	for i < wn && i < gn && bit(want, i) == bit(got, i) {
		i++
	}
	if i == wn && i == gn {
		return ""
	}
	return fmt.Sprintf("first difference at bit %d: reference %d bits %x, written %d bits %x", i, wn, clip(want), gn, clip(got))
}

func bit(b []byte, i int) byte { return b[i/8] >> (7 - uint(i%8)) & 1 }

// wire checks that the object encodes to the reference bits at a position.
func (k *Case) wire(pos int) bool {
	o := k.Obj().(zserio.Marshaler)
	w := mon.NewW(pos)
	if err := o.MarshalZserio(w); err != nil {
		k.Fail("encode", "encoding a valid value at bit %d failed: %v", pos, err)
		return false
	}
	if w.Breach != "" {
		k.Fail("contract", "%s", w.Breach)
		return false
	}
	want, n := k.refAt(pos)
	if d := bitDiff(want, w.Bytes(), n, w.Len()); d != "" {
		k.Fail("wire", "at bit position %d, %s", pos, d)
		return false
	}
	return true
}

// marshal checks zserio.Marshal against the reference.
func (k *Case) marshal() []byte {
	b, err := zserio.Marshal(k.Obj().(zserio.Marshaler))
	if err != nil {
		k.Fail("encode", "Marshal of a valid value failed: %v", err)
		return nil
	}
	if !bytes.Equal(b, k.Ref) {
		k.Fail("wire", "%s", bitDiff(k.Ref, b, k.Bits, 8*len(b)))
		return nil
	}
	return b
}

// decode checks that the reference encoding at a position decodes to the value
// and consumes exactly its bits.
func (k *Case) decode(pos int) bool {
	bits, n := k.refAt(pos)
	buf := shifted(bits, n, pos)
	r := mon.NewR(buf, 8*len(buf), pos)
	o := k.Fresh()
	if err := o.(zserio.Unmarshaler).UnmarshalZserio(r); err != nil {
		k.Fail("decode", "decoding the reference encoding at bit %d failed: %v", pos, err)
		return false
	}
	if r.Breach != "" {
		k.Fail("contract", "%s", r.Breach)
	}
	if got := r.Pos() - pos; got != n {
		k.Fail("consumed", "decoding at bit %d consumed %d bits of %d", pos, got, n)
		return false
	}
	return k.same(o, "decode")
}

// shifted places n bits behind pos zero bits and adds ones as trailing garbage.
func shifted(bits []byte, n, pos int) []byte {
	total := pos + n
	out := make([]byte, (total+7)/8+3)
	for i := 0; i < n; i++ {
		if bit(bits, i) != 0 {
			out[(pos+i)/8] |= 0x80 >> uint((pos+i)%8)
		}
	}
	for i := total; i < 8*len(out); i++ {
		out[i/8] |= 0x80 >> uint(i%8)
	}
	return out
}

// same compares a decoded object with the value.
func (k *Case) same(o any, oracle string) bool {
	var bad string
	g := &zs.GoReader{ParamDiff: func(path string, want, got *zs.Val) {
		if bad == "" {
			bad = fmt.Sprintf("parameter %s is %s, the schema's argument gives %s", path, got.Scalar(), want.Scalar())
		}
	}}
	v, err := g.Get(k.T, reflect.ValueOf(o).Elem(), k.V.Params)
	if err != nil {
		k.Fail(oracle, "decoded object is inconsistent: %v", err)
		return false
	}
	if bad != "" {
		k.Fail("param", "%s", bad)
		return false
	}
	if d := zs.Diff(k.V, v, ""); d != "" {
		k.Fail(oracle, "decoded value differs: %s", d)
		return false
	}
	return true
}

// roundtrip encodes, decodes and encodes again, through the public API.
func (k *Case) roundtrip() {
	b, err := zserio.Marshal(k.Obj().(zserio.Marshaler))
	if err != nil {
		k.Fail("encode", "Marshal of a valid value failed: %v", err)
		return
	}
	o := k.Fresh()
	if err := zserio.Unmarshal(b, o.(zserio.Unmarshaler)); err != nil {
		k.Fail("decode", "Unmarshal of its own encoding %x failed: %v", clip(b), err)
		return
	}
	if !k.same(o, "roundtrip") {
		return
	}
	b2, err := zserio.Marshal(o.(zserio.Marshaler))
	if err != nil {
		k.Fail("reencode", "encoding the decoded object failed: %v", err)
		return
	}
	if !bytes.Equal(b, b2) {
		k.Fail("reencode", "encoding the decoded object gives %x, not %x", clip(b2), clip(b))
		return
	}
	// bits consumed, behind a prefix, with trailing data
	w := mon.NewW(0)
	pos := k.R.Intn(30)
	w = mon.NewW(pos)
	if err := k.Obj().(zserio.Marshaler).MarshalZserio(w); err != nil {
		k.Fail("encode", "encoding a valid value at bit %d failed: %v", pos, err)
		return
	}
	buf := shifted(w.Bytes(), w.Len(), pos)
	r := mon.NewR(buf, 8*len(buf), pos)
	o = k.Fresh()
	if err := o.(zserio.Unmarshaler).UnmarshalZserio(r); err != nil {
		k.Fail("decode", "decoding its own encoding at bit %d failed: %v", pos, err)
		return
	}
	if r.Pos() != pos+w.Len() {
		k.Fail("consumed", "decoding at bit %d consumed %d bits, %d were written", pos, r.Pos()-pos, w.Len())
		return
	}
	k.same(o, "roundtrip")
}

// size checks the announced bit size at a position against what is written there.
func (k *Case) size(pos int) {
	o := k.Obj().(zserio.Marshaler)
	w := mon.NewW(pos)
	if err := o.MarshalZserio(w); err != nil {
		k.Fail("encode", "encoding a valid value at bit %d failed: %v", pos, err)
		return
	}
	o = k.Obj().(zserio.Marshaler)
	n, err := o.ZserioBitSize(pos)
	if err != nil {
		k.Fail("size", "ZserioBitSize(%d) of a valid value failed: %v", pos, err)
		return
	}
	if n != w.Len() {
		k.Fail("size", "ZserioBitSize(%d) announces %d bits, %d are written", pos, n, w.Len())
	}
}

// writeFaults fails every stream operation in turn.
func (k *Case) writeFaults(limit int) {
	w := mon.NewW(0)
	if err := k.Obj().(zserio.Marshaler).MarshalZserio(w); err != nil {
		k.Fail("encode", "encoding a valid value failed: %v", err)
		return
	}
	for _, i := range sample(w.Ops, limit, k.R.Intn) {
		f := mon.NewW(0)
		f.FailAt, f.Once = i, k.R.Intn(2) == 0
		err := k.Obj().(zserio.Marshaler).MarshalZserio(f)
		k.c.Count("write_faults", 1)
		if err == nil {
			k.Fail("writefault", "writer failed at operation %d of %d (%c, bit %d): encoding reported success", i, w.Ops, opKind(w, i), opPos(w, i))
			return
		}
		if !errors.Is(err, mon.ErrInjected) {
			k.Fail("writefault", "writer failed at operation %d of %d: the error reported is %q and does not carry the writer's error", i, w.Ops, err)
			return
		}
	}
	// byte sink faults, through the real bit writer, including the final flush
	for _, i := range sample(len(k.Ref), limit, k.R.Intn) {
		s := &mon.FailingSink{Limit: i, Once: k.R.Intn(2) == 0}
		bw := zstream.NewWriter(s)
		err := k.Obj().(zserio.Marshaler).MarshalZserio(bw)
		if cerr := bw.Close(); err == nil {
			err = cerr
		}
		k.c.Count("sink_faults", 1)
		if !errors.Is(err, mon.ErrInjected) {
			k.Fail("sinkfault", "sink full after %d of %d bytes: encoding and flushing reported %v", i, len(k.Ref), err)
			return
		}
	}
}

func opKind(w *mon.W, i int) byte {
	if i < len(w.Log) {
		return w.Log[i].Kind
	}
	return '?'
}

func opPos(w *mon.W, i int) int {
	if i < len(w.Log) {
		return w.Log[i].Pos
	}
	return -1
}

// sample gives all of 0..n-1, or limit of them including the ends.
func sample(n, limit int, rnd func(int) int) []int {
	var out []int
	if n <= limit {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	out = append(out, 0, 1, n-2, n-1)
	for len(out) < limit {
		out = append(out, rnd(n))
	}
	return out
}

// truncations cuts the encoding at every byte.
func (k *Case) truncations(limit int) {
	for _, cut := range sample(len(k.Ref), limit, k.R.Intn) {
		in := append([]byte{}, k.Ref[:cut]...)
		o := k.Fresh()
		err := zserio.Unmarshal(in, o.(zserio.Unmarshaler))
		k.c.Count("truncations", 1)
		if err == nil {
			k.Fail("truncated", "decoding the first %d of %d bytes reported success", cut, len(k.Ref))
			return
		}
		// the same through a bit-precise source
		cb := k.R.Intn(k.Bits)
		r := mon.NewR(k.Ref, cb, 0)
		o = k.Fresh()
		if err := o.(zserio.Unmarshaler).UnmarshalZserio(r); err == nil {
			k.Fail("truncated", "decoding the first %d of %d bits reported success", cb, k.Bits)
			return
		}
	}
}

// readFaults fails every source operation in turn.
func (k *Case) readFaults(limit int) {
	r := mon.NewR(k.Ref, 8*len(k.Ref), 0)
	if err := k.Fresh().(zserio.Unmarshaler).UnmarshalZserio(r); err != nil {
		k.Fail("decode", "decoding the reference encoding failed: %v", err)
		return
	}
	for _, i := range sample(r.Ops, limit, k.R.Intn) {
		f := mon.NewR(k.Ref, 8*len(k.Ref), 0)
		f.FailAt, f.Once = i, k.R.Intn(2) == 0
		err := k.Fresh().(zserio.Unmarshaler).UnmarshalZserio(f)
		k.c.Count("read_faults", 1)
		if err == nil {
			k.Fail("readfault", "reader failed at operation %d of %d: decoding reported success", i, r.Ops)
			return
		}
		if !errors.Is(err, mon.ErrInjected) {
			k.Fail("readfault", "reader failed at operation %d of %d: the error reported is %q and does not carry the reader's error", i, r.Ops, err)
			return
		}
	}
	for _, i := range sample(len(k.Ref), limit, k.R.Intn) {
		for _, last := range []bool{false, true} {
			t := &mon.Trickle{Data: append([]byte{}, k.Ref[:i]...), Err: mon.ErrInjected, WithLast: last}
			if !last && k.R.Intn(2) == 0 {
				t.More = append([]byte{}, k.Ref[i:]...) // the source recovers
			}
			err := k.Fresh().(zserio.Unmarshaler).UnmarshalZserio(zstream.NewReader(t))
			k.c.Count("source_faults", 1)
			if err == nil {
				k.Fail("sourcefault", "source failed after %d of %d bytes: decoding reported success", i, len(k.Ref))
				return
			}
			if !errors.Is(err, mon.ErrInjected) && !errors.Is(err, io.ErrUnexpectedEOF) {
				k.Fail("sourcefault", "source failed after %d of %d bytes: the error %q does not carry the source's error", i, len(k.Ref), err)
				return
			}
		}
	}
}
