package zs

import "fmt"

// Hollow tells whether values of the type can hold arrays whose elements
// occupy no bits, so that a short input can stand for very many of them.
func Hollow(t *RType) bool { return hollow(t, map[string]bool{}) }

func typeKey(t *RType) string { return fmt.Sprintf("%p/%s", t.D, t.Inst) }

func hollow(t *RType, seen map[string]bool) bool {
	if !t.IsCompound() || seen[typeKey(t)] {
		return false
	}
	seen[typeKey(t)] = true
	for _, f := range t.D.Fields {
		ft := t.Sc.Resolve(f.Type)
		if f.Array != nil && (f.Array.Packed || noBits(ft, map[string]bool{})) {
			return true
		}
		if hollow(ft, seen) {
			return true
		}
	}
	return false
}

// noBits tells whether a value of the type may occupy no bits.
func noBits(t *RType, seen map[string]bool) bool {
	if !t.IsCompound() {
		return false
	}
	if t.Kind == KUnion {
		return false
	}
	if t.D.Kind == "choice" || seen[typeKey(t)] {
		return true
	}
	seen[typeKey(t)] = true
	for _, f := range t.D.Fields {
		switch {
		case f.Optional:
			return false
		case f.Cond != nil:
		case f.Array != nil && f.Array.Len == nil:
			return false
		case f.Array == nil && !noBits(t.Sc.Resolve(f.Type), seen):
			return false
		}
	}
	return true
}
