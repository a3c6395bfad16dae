package work

import (
	"fmt"
	"math/rand"
	"runtime"

	"github.com/woven-planet/go-zserio/verif/mon"
)

// hostileRuntime sends arbitrary bytes through the decoding functions of the
// runtime library themselves.
func (c *Ctx) hostileRuntime() {
	for i, p := range prims() {
		if !c.mine(i) {
			continue
		}
		r := c.Rng("hostile runtime " + p.name)
		valid := p.values(r, 20)
		for n := 0; n < c.N(250, 8000); n++ {
			data := c.runtimeInput(r, &p, valid)
			pos := r.Intn(8)
			if 8*len(data) < pos {
				pos = 0
			}
			c.runtimeCase("runtime/"+p.name, data, pos, func(rd *mon.R) error { _, err := p.read(rd); return err })
			if p.array == nil {
				continue
			}
			size, packed, auto := 0, r.Intn(2) == 0, r.Intn(2) == 0
			switch r.Intn(6) {
			case 0:
				size = -1 - r.Intn(1<<30)
			case 1:
				size = 1 << uint(r.Intn(40))
			default:
				size = r.Intn(40)
			}
			if auto && r.Intn(2) == 0 { // a length the input does not live up to
				h := hugeSizes[r.Intn(len(hugeSizes))]
				data = append(append([]byte{}, h...), data...)
				pos = 0
			}
			if packed && boundless(data, pos, size, auto) {
				c.Count("runtime_no_bits_skipped", 1)
				continue
			}
			name := fmt.Sprintf("runtime/array of %s size=%d packed=%v auto=%v", p.name, size, packed, auto)
			got := 0
			ok := c.runtimeCase(name, data, pos, func(rd *mon.R) error {
				n, err := p.array(rd, size, packed, auto)
				got = n
				return err
			})
			if ok && !auto && got != size {
				c.Violation("runtime/array/size", fmt.Sprintf("%s from %x: read %d elements without an error", name, clip(data), got), nil)
			}
		}
	}
}

func (c *Ctx) runtimeInput(r *rand.Rand, p *prim, valid []any) []byte {
	var ref []byte
	for j := 0; j < 1+r.Intn(4) && len(valid) > 0; j++ {
		if want, ok := p.ref(valid[r.Intn(len(valid))]); ok && len(want) < 4000 {
			ref = append(ref, want.pack()...)
		}
	}
	return corrupt(r, ref)
}

// boundless tells whether packed input announces many elements of no bits each.
func boundless(data []byte, pos, size int, auto bool) bool {
	bits := ""
	for _, b := range data[:min(len(data), 16)] {
		bits += fmt.Sprintf("%08b", b)
	}
	bits = bits[pos:]
	if auto {
		for i := 0; ; i++ {
			if len(bits) < 8 {
				return false
			}
			more := bits[0] == '1' && i < 4
			bits = bits[8:]
			if !more {
				break
			}
		}
	} else if size < 60000 {
		return false
	}
	return len(bits) >= 7 && bits[:7] == "1000000"
}

// runtimeCase runs one decoding function under the monitors for panics,
// memory and the number of read operations.
func (c *Ctx) runtimeCase(name string, data []byte, pos int, f func(*mon.R) error) bool {
	c.Journal(fmt.Sprintf("%s at %d of %x", name, pos, clip(data)))
	c.Eval(fmt.Sprintf("%s %d %x", name, pos, data), len(data) > 0)
	c.Count("runtime_inputs", 1)
	cs := map[string]any{"function": name, "input_hex": fmt.Sprintf("%x", data), "position": pos}
	rd := mon.NewR(append([]byte{}, data...), 8*len(data), pos)
	rd.MaxOps = 4000 + 64*len(data)
	var m0, m1 runtime.MemStats
	var err error
	runtime.ReadMemStats(&m0)
	p := Guard(func() { err = f(rd) })
	runtime.ReadMemStats(&m1)
	switch {
	case p != "":
		c.Violation(name+"/panic", fmt.Sprintf("reading %x at bit %d panicked: %s", clip(data), pos, p), cs)
	case rd.Runaway:
		c.Violation(name+"/operations", fmt.Sprintf("reading %x at bit %d took more than %d read operations", clip(data), pos, rd.MaxOps), cs)
	case m1.TotalAlloc-m0.TotalAlloc > uint64(24<<20+64<<10*len(data)):
		c.Violation(name+"/alloc", fmt.Sprintf("reading %x at bit %d allocated %d bytes", clip(data), pos, m1.TotalAlloc-m0.TotalAlloc), cs)
	case err == nil:
		c.Count("runtime_accepted", 1)
		return true
	default:
		c.Count("runtime_refused", 1)
	}
	return false
}
