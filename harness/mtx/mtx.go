// Package mtx holds the reference model of the sparse Merkle tree used by the
// checks: a plain set of entries, with the root and the proofs computed by
// definition, and generators of entries whose tree paths collide.
package mtx

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"sync"

	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/poseidon"
	"pgregory.net/rapid"
)

// PrefixPair is two seeds whose paths agree on exactly L steps.
type PrefixPair struct {
	L    int
	A, B uint32
}

// Q is the order of the scalar field every element has to stay below.
var Q, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

// H is a 32 byte hash or element, little endian.
type H = [32]byte

// Int reads little endian bytes.
func Int(h H) *big.Int {
	var r [32]byte
	for i := range h {
		r[31-i] = h[i]
	}
	return new(big.Int).SetBytes(r[:])
}

// FromInt writes little endian bytes.
func FromInt(v *big.Int) (h H) {
	b := v.Bytes()
	for i := range b {
		h[len(b)-1-i] = b[i]
	}
	return h
}

var (
	pmu    sync.Mutex
	pcache = map[[6]H]H{}
)

// Poseidon hashes up to six elements, zero padded. ok is false when an input is
// not a field element.
func Poseidon(in ...H) (out H, ok bool) {
	var key [6]H
	copy(key[:], in)
	pmu.Lock()
	out, ok = pcache[key]
	pmu.Unlock()
	if ok {
		return out, true
	}
	var b [poseidon.T]*big.Int
	for i := range b {
		b[i] = Int(key[i])
		if b[i].Cmp(Q) >= 0 {
			return H{}, false
		}
	}
	r, err := poseidon.PoseidonHash(b)
	if err != nil {
		return H{}, false
	}
	out = FromInt(r)
	pmu.Lock()
	if len(pcache) > 300000 {
		pcache = map[[6]H]H{}
	}
	pcache[key] = out
	pmu.Unlock()
	return out, true
}

// MustPoseidon is Poseidon on inputs known to be in the field.
func MustPoseidon(in ...H) H {
	h, ok := Poseidon(in...)
	if !ok {
		panic("harness: element out of field")
	}
	return h
}

// Entry is the reference entry: eight elements.
type Entry [8]H

// InField tells whether every element is a field element.
func (e Entry) InField() bool {
	for _, x := range e {
		if Int(x).Cmp(Q) >= 0 {
			return false
		}
	}
	return true
}

// Hi and Hv are the hashes of the index half and of the value half.
func (e Entry) Hi() H { return MustPoseidon(e[0], e[1], e[2], e[3]) }
func (e Entry) Hv() H { return MustPoseidon(e[4], e[5], e[6], e[7]) }

// E converts to the type under test.
func (e Entry) E() *merkletree.Entry {
	r := &merkletree.Entry{}
	for i := range e {
		r.Data[i] = merkletree.ElemBytes(e[i])
	}
	return r
}

// FromE converts from the type under test.
func FromE(d *merkletree.Data) (e Entry) {
	for i := range e {
		e[i] = H(d[i])
	}
	return e
}

func (e Entry) String() string {
	s := ""
	for i, x := range e {
		if x == (H{}) {
			s += "."
			continue
		}
		n := 32
		for n > 0 && x[n-1] == 0 {
			n--
		}
		s += fmt.Sprintf("%d:%x ", i, x[:n])
	}
	return s
}

// Bit is the n-th step of the path of h.
func Bit(h H, n int) bool { return h[n/8]&(1<<(uint(n)%8)) != 0 }

// Leaf and Mid are the keys of a leaf and of an inner node.
func Leaf(hi, hv H) (H, bool) {
	one := H{1}
	return Poseidon(hi, hv, one)
}
func Mid(l, r H) (H, bool) { return Poseidon(l, r) }

// Set is the reference tree content: entries by index hash.
type Set map[H]Entry

// Clone copies a set.
func (s Set) Clone() Set {
	c := make(Set, len(s))
	for k, v := range s {
		c[k] = v
	}
	return c
}

// Keys returns the index hashes in path order.
func (s Set) Keys() []H {
	ks := make([]H, 0, len(s))
	for k := range s {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return pathLess(ks[i], ks[j]) })
	return ks
}

func pathLess(a, b H) bool {
	for n := 0; n < 256; n++ {
		x, y := Bit(a, n), Bit(b, n)
		if x != y {
			return y
		}
	}
	return false
}

// LCP is the number of leading path steps a and b share.
func LCP(a, b H) int {
	for n := 0; n < 256; n++ {
		if Bit(a, n) != Bit(b, n) {
			return n
		}
	}
	return 256
}

func (s Set) node(ks []H, lvl int) H {
	switch len(ks) {
	case 0:
		return H{}
	case 1:
		h, ok := Leaf(ks[0], s[ks[0]].Hv())
		if !ok {
			panic("harness: leaf out of field")
		}
		return h
	}
	i := sort.Search(len(ks), func(i int) bool { return Bit(ks[i], lvl) })
	l, r := s.node(ks[:i], lvl+1), s.node(ks[i:], lvl+1)
	h, ok := Mid(l, r)
	if !ok {
		panic("harness: node out of field")
	}
	return h
}

// Root is the root by definition.
func (s Set) Root() H { return s.node(s.Keys(), 0) }

// Fits tells whether a new index hash can be placed in a tree with the given
// maximum of levels.
func (s Set) Fits(hi H, maxLevels int) bool {
	d := s.Depth(hi)
	return d <= maxLevels-1
}

// Depth is the depth at which the leaf of hi sits once it is in the set.
func (s Set) Depth(hi H) int {
	d := 0
	for k := range s {
		if k == hi {
			continue
		}
		if l := LCP(k, hi) + 1; l > d {
			d = l
		}
	}
	return d
}

// RefProof is a proof by definition.
type RefProof struct {
	Existence bool
	Siblings  []H // one per level, zero where empty
	Aux       bool
	AuxHi     H
	AuxHv     H
}

// Proof computes the proof for an index hash.
func (s Set) Proof(hi H) RefProof {
	ks := s.Keys()
	var p RefProof
	for lvl := 0; ; lvl++ {
		if len(ks) == 0 {
			return p
		}
		if len(ks) == 1 {
			if ks[0] == hi {
				p.Existence = true
			} else {
				p.Aux, p.AuxHi, p.AuxHv = true, ks[0], s[ks[0]].Hv()
			}
			return p
		}
		i := sort.Search(len(ks), func(i int) bool { return Bit(ks[i], lvl) })
		l, r := ks[:i], ks[i:]
		if Bit(hi, lvl) {
			p.Siblings = append(p.Siblings, s.node(l, lvl+1))
			ks = r
		} else {
			p.Siblings = append(p.Siblings, s.node(r, lvl+1))
			ks = l
		}
	}
}

// Fold recomputes the root a proof stands for. ok is false when a hash is
// undefined (element out of field) or the proof contradicts itself.
func (p RefProof) Fold(hi, hv H) (H, bool) {
	var k H
	ok := true
	if p.Existence {
		k, ok = Leaf(hi, hv)
	} else if p.Aux {
		if p.AuxHi == hi {
			return H{}, false
		}
		k, ok = Leaf(p.AuxHi, p.AuxHv)
	}
	if !ok {
		return H{}, false
	}
	for lvl := len(p.Siblings) - 1; lvl >= 0; lvl-- {
		if Bit(hi, lvl) {
			k, ok = Mid(p.Siblings[lvl], k)
		} else {
			k, ok = Mid(k, p.Siblings[lvl])
		}
		if !ok {
			return H{}, false
		}
	}
	return k, true
}

// Bytes is the documented encoding: a 32 byte header (flags, depth, bitmap of
// non-empty siblings in big endian order), the siblings, the auxiliary node.
func (p RefProof) Bytes() []byte {
	b := make([]byte, 32)
	if !p.Existence {
		b[0] |= 1
	}
	b[1] = byte(len(p.Siblings))
	for i, s := range p.Siblings {
		if s != (H{}) {
			b[31-i/8] |= 1 << (uint(i) % 8)
			b = append(b, s[:]...)
		}
	}
	if p.Aux {
		b[0] |= 2
		b = append(b, p.AuxHi[:]...)
		b = append(b, p.AuxHv[:]...)
	}
	return b
}

// ---------------------------------------------------------------- generators

// SeedEntry is the entry whose index is the seed of the pool.
func SeedEntry(seed uint32) (e Entry) {
	binary.LittleEndian.PutUint32(e[0][:], seed)
	return e
}

// Elem generates one element, inside the field unless bad.
func Elem(bad bool) *rapid.Generator[H] {
	return rapid.Custom(func(t *rapid.T) H {
		if bad {
			switch rapid.IntRange(0, 2).Draw(t, "badkind") {
			case 0:
				return FromInt(Q)
			case 1:
				return FromInt(new(big.Int).Add(Q, big.NewInt(int64(rapid.IntRange(0, 5).Draw(t, "over")))))
			default:
				var h H
				for i := range h {
					h[i] = 0xff
				}
				return h
			}
		}
		switch rapid.IntRange(0, 5).Draw(t, "elemkind") {
		case 0:
			return H{}
		case 1:
			return H{rapid.Byte().Draw(t, "b")}
		case 2:
			return FromInt(new(big.Int).Sub(Q, big.NewInt(int64(rapid.IntRange(1, 3).Draw(t, "under")))))
		case 3:
			var h H
			i := rapid.IntRange(0, 30).Draw(t, "pos")
			h[i] = rapid.Byte().Draw(t, "b")
			return h
		default:
			b := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "bytes")
			var h H
			copy(h[:], b)
			return FromInt(new(big.Int).Mod(Int(h), Q))
		}
	})
}

// Entries generates an entry: often from the pool of colliding paths, often a
// repeat of a small set of indexes with another value.
func Entries() *rapid.Generator[Entry] {
	return rapid.Custom(func(t *rapid.T) Entry {
		var e Entry
		switch rapid.IntRange(0, 9).Draw(t, "entrykind") {
		case 0, 1, 2:
			e = SeedEntry(uint32(rapid.IntRange(0, 24).Draw(t, "small")))
		case 3, 4:
			p := PrefixPairs[rapid.IntRange(0, len(PrefixPairs)-1).Draw(t, "pair")]
			if rapid.Bool().Draw(t, "second") {
				e = SeedEntry(p.B)
			} else {
				e = SeedEntry(p.A)
			}
		case 5, 6:
			if rapid.IntRange(0, 2).Draw(t, "zeros") == 0 {
				// hashes with zero bytes at an end
				z := Zeros[rapid.IntRange(0, len(Zeros)-1).Draw(t, "zero")]
				e = SeedEntry(z[0])
				binary.LittleEndian.PutUint32(e[4][:], z[1])
				return e
			}
			e = SeedEntry(Bundle[rapid.IntRange(0, len(Bundle)-1).Draw(t, "bundle")])
		case 7:
			// index in one of the other index elements
			e[rapid.IntRange(0, 3).Draw(t, "slot")] = Elem(false).Draw(t, "elem")
		default:
			for i := range e {
				e[i] = Elem(false).Draw(t, "elem")
			}
			return e
		}
		if rapid.Bool().Draw(t, "hasvalue") {
			e[4+rapid.IntRange(0, 3).Draw(t, "vslot")] = Elem(false).Draw(t, "value")
		}
		return e
	})
}

// Cluster generates a list of entries with many shared prefixes.
func Cluster(min, max int) *rapid.Generator[[]Entry] {
	return rapid.Custom(func(t *rapid.T) []Entry {
		n := rapid.IntRange(min, max).Draw(t, "n")
		var es []Entry
		for len(es) < n {
			if rapid.IntRange(0, 3).Draw(t, "bypair") == 0 {
				p := PrefixPairs[rapid.IntRange(0, len(PrefixPairs)-1).Draw(t, "pair")]
				a, b := SeedEntry(p.A), SeedEntry(p.B)
				a[4+rapid.IntRange(0, 3).Draw(t, "s")] = Elem(false).Draw(t, "va")
				es = append(es, a, b)
				continue
			}
			es = append(es, Entries().Draw(t, "e"))
		}
		return es
	})
}

// Levels generates the maximum number of levels of a tree.
func Levels() *rapid.Generator[int] {
	return rapid.SampledFrom([]int{140, 140, 140, 240, 64, 48, 40, 32, 24, 16, 12, 10, 8, 6, 5, 4, 3, 2, 1, 141, 200})
}

// CraftedHi generates an index hash related to a set: one in it, one sharing a
// prefix with a member, or an unrelated one.
func CraftedHi(s Set) *rapid.Generator[H] {
	return rapid.Custom(func(t *rapid.T) H {
		ks := s.Keys()
		kind := rapid.IntRange(0, 3).Draw(t, "hikind")
		if len(ks) == 0 || kind == 0 {
			return Entries().Draw(t, "other").Hi()
		}
		h := ks[rapid.IntRange(0, len(ks)-1).Draw(t, "member")]
		if kind == 1 {
			return h
		}
		// flip one step and, sometimes, scramble what follows
		n := rapid.IntRange(0, 252).Draw(t, "flip")
		h[n/8] ^= 1 << (uint(n) % 8)
		if kind == 3 {
			for i := n/8 + 1; i < 31; i++ {
				h[i] = rapid.Byte().Draw(t, "tail")
			}
		}
		return h
	})
}

// Hash converts to the type under test.
func Hash(h H) *merkletree.Hash { r := merkletree.Hash(h); return &r }

// GoString keeps the log of a failing case readable.
func (e Entry) GoString() string { return "{" + e.String() + "}" }

// Equal tells whether two sets hold the same entries.
func (s Set) Equal(o Set) bool {
	if len(s) != len(o) {
		return false
	}
	for k, v := range s {
		if w, ok := o[k]; !ok || w != v {
			return false
		}
	}
	return true
}
