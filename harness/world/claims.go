package world

import (
	"encoding/binary"
	"fmt"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"pgregory.net/rapid"

	"verifharness/mtx"
)

// Spec describes a claim; two claims of the same spec have the same content.
type Spec struct {
	Kind    string
	I, V    byte
	Subject core.ID
	Flags   byte // of generic claims: subject (2 bits), position, expiration, version
	Exp     int64
	Ver     uint32
}

func (s Spec) String() string {
	r := fmt.Sprintf("%s/%d/%d", s.Kind, s.I, s.V)
	if s.Kind == "generic" {
		r += fmt.Sprintf("/f%02x/e%d/v%d", s.Flags, s.Exp, s.Ver)
	}
	if s.Subject != (core.ID{}) {
		r += fmt.Sprintf("/s%x", s.Subject[2:4])
	}
	return r
}

// Expires tells whether the claim has an expiration, and which.
func (s Spec) Expires() (int64, bool) {
	return s.Exp, s.Kind == "generic" && s.Flags&0b1000 != 0
}

// DrawSpec generates a claim out of a small pool, so that claims repeat.
func DrawSpec(t *rapid.T, exps []int64) Spec {
	s := Spec{
		Kind: rapid.SampledFrom([]string{"basic", "basic", "generic", "generic", "other", "key"}).Draw(t, "kind"),
		I:    rapid.ByteRange(0, 6).Draw(t, "index"),
		V:    rapid.ByteRange(0, 2).Draw(t, "value"),
	}
	sub := func() {
		var gen [27]byte
		gen[0] = rapid.ByteRange(1, 3).Draw(t, "subject")
		gen[20] = 7
		s.Subject = core.NewID(core.TypeBJP0, gen)
	}
	switch s.Kind {
	case "other":
		sub()
	case "generic":
		f := rapid.SampledFrom([]byte{0, 0b10, 0b01}).Draw(t, "subject kind")
		if f != 0 {
			sub()
			f |= rapid.SampledFrom([]byte{0, 0b100}).Draw(t, "position")
		}
		if rapid.Bool().Draw(t, "expires") {
			f |= 0b1000
			s.Exp = rapid.SampledFrom(exps).Draw(t, "expiration")
		}
		if rapid.IntRange(0, 3).Draw(t, "versioned") == 0 {
			f |= 0b10000
			s.Ver = rapid.Uint32Range(0, 2).Draw(t, "version")
		}
		s.Flags = f
	}
	return s
}

// Key is the n-th of the fixed keys.
func Key(n int) babyjub.PrivateKey {
	var sk babyjub.PrivateKey
	binary.LittleEndian.PutUint32(sk[:], uint32(n)+1)
	sk[31] = 0x5a
	return sk
}

// Build makes a new claim object.
func (s Spec) Build() claims.Claimer {
	switch s.Kind {
	case "basic":
		return claims.NewClaimBasic([claims.IndexSlotLen]byte{0, s.I}, [claims.ValueSlotLen]byte{s.V, 40: s.V})
	case "other":
		id := s.Subject
		return claims.NewClaimOtherIden(&id, [claims.IndexSubjectSlotLen]byte{s.I}, [claims.ValueSlotLen]byte{0, s.V})
	case "key":
		sk := Key(1000 + int(s.I))
		return claims.NewClaimKeyBabyJub(sk.Public(), claims.BabyJubKeyType(s.V))
	}
	return claims.NewClaimGeneric(s.Entry(0).E())
}

// Entry is the entry that the claim must have with a nonce.
func (s Spec) Entry(nonce uint32) (e mtx.Entry) {
	if s.Kind != "generic" {
		c := s.Build()
		c.Metadata().RevNonce = nonce
		return mtx.FromE(&c.Entry().Data)
	}
	e[0][7], e[0][0] = 99, 1
	e[0][8] = s.Flags
	if s.Flags&0b11 != 0 {
		at := 1
		if s.Flags&0b100 != 0 {
			at = 5
		}
		copy(e[at][:], s.Subject[:])
	}
	e[2][0], e[3][30] = s.I, 1
	e[7][3] = s.V
	if s.Flags&0b1000 != 0 {
		binary.LittleEndian.PutUint64(e[4][4:], uint64(s.Exp))
	}
	if s.Flags&0b10000 != 0 {
		binary.LittleEndian.PutUint32(e[0][12:], s.Ver)
	}
	binary.LittleEndian.PutUint32(e[4][:], nonce)
	return e
}

var _ merkletree.Entrier = claims.Claimer(nil)

// Rev is the entry of the revocations tree of a nonce.
func Rev(nonce uint32) (e mtx.Entry) {
	binary.LittleEndian.PutUint32(e[0][:], nonce)
	binary.LittleEndian.PutUint32(e[4][:], 0xffffffff)
	return e
}

// RootLeaf is the entry of the roots tree of a root.
func RootLeaf(r H) (e mtx.Entry) {
	e[0] = r
	return e
}

// Nonce is the revocation nonce of an entry.
func Nonce(e mtx.Entry) uint32 { return binary.LittleEndian.Uint32(e[4][:4]) }

// Ent is an entry as a claim.
type Ent struct{ E mtx.Entry }

// Entry makes a new entry.
func (e Ent) Entry() *merkletree.Entry { return e.E.E() }
