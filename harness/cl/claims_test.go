// Package cl checks claims, identifiers and the genesis of identities.
package cl

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"verifharness/mtx"
	"verifharness/vh"

	"github.com/iden3/go-iden3-core/common"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// drawBytes fills a slot: random, or with zeros and ones at chosen places.
func drawBytes(t *rapid.T, n int, label string) []byte {
	b := make([]byte, n)
	switch rapid.IntRange(0, 3).Draw(t, label+"kind") {
	case 0:
		copy(b, rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label))
	case 1:
		for i := rapid.IntRange(0, 3).Draw(t, label+"n"); i > 0; i-- {
			b[rapid.IntRange(0, n-1).Draw(t, label+"at")] = rapid.Byte().Draw(t, label+"b")
		}
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	}
	return b
}

func drawID(t *rapid.T) core.ID {
	var typ [2]byte
	var gen [27]byte
	copy(typ[:], drawBytes(t, 2, "typ"))
	copy(gen[:], drawBytes(t, 27, "gen"))
	if typ == [2]byte{} && gen == [27]byte{} {
		gen[26] = 1 // the zero identifier stands for none
	}
	return core.NewID(typ, gen)
}

// drawHeader generates a header; known types come with their fixed header
// unless wild.
func drawHeader(t *rapid.T, wild bool) claims.ClaimHeader {
	h := claims.ClaimHeader{
		Subject:    rapid.SampledFrom([]claims.ClaimSubject{claims.ClaimSubjectSelf, claims.ClaimSubjectOtherIden, claims.ClaimSubjectObject}).Draw(t, "subject"),
		SubjectPos: rapid.SampledFrom([]claims.ClaimSubjectPos{claims.ClaimSubjectPosIndex, claims.ClaimSubjectPosValue}).Draw(t, "pos"),
		Expiration: rapid.Bool().Draw(t, "exp"),
		Version:    rapid.Bool().Draw(t, "ver"),
	}
	switch rapid.IntRange(0, 5).Draw(t, "type") {
	case 0, 1, 2:
		copy(h.Type[:], drawBytes(t, 8, "rawtype"))
	case 3:
		h.Type = claims.NewClaimTypeNum(rapid.Uint64Range(0, 5).Draw(t, "num"))
	case 4:
		h.Type = claims.NewClaimType(rapid.StringN(0, 8, 20).Draw(t, "name"))
	case 5:
		h.Type = claims.NewClaimTypeNum(rapid.Uint64().Draw(t, "num"))
	}
	if !wild {
		switch h.Type {
		case claims.ClaimTypeBasic:
			h = claims.ClaimHeaderBasic
		case claims.ClaimTypeKeyBabyJub:
			h = claims.ClaimHeaderKeyBabyJub
		case claims.ClaimTypeOtherIden:
			h = claims.ClaimHeaderOtherIden
		}
	}
	return h
}

func drawMetadata(t *rapid.T, wild bool) claims.Metadata {
	h := drawHeader(t, wild)
	m := claims.NewMetadata(h)
	if h.Subject != claims.ClaimSubjectSelf {
		id := drawID(t)
		m.Subject = &id
	}
	if h.Expiration {
		m.Expiration = rapid.Int64().Draw(t, "expiration")
	}
	if h.Version {
		m.Version = rapid.Uint32().Draw(t, "version")
	}
	m.RevNonce = rapid.Uint32().Draw(t, "revnonce")
	return m
}

func sameMeta(a, b *claims.Metadata) bool {
	if a.Header() != b.Header() || a.Expiration != b.Expiration || a.Version != b.Version || a.RevNonce != b.RevNonce {
		return false
	}
	if (a.Subject == nil) != (b.Subject == nil) {
		return false
	}
	return a.Subject == nil || *a.Subject == *b.Subject
}

func metaString(m *claims.Metadata) string {
	s := "nil"
	if m.Subject != nil {
		s = hex.EncodeToString(m.Subject[:])
	}
	return fmt.Sprintf("{%+v subject=%s exp=%d ver=%d nonce=%d}", m.Header(), s, m.Expiration, m.Version, m.RevNonce)
}

// layout writes the metadata by the documented layout onto a copy of d.
func layout(m *claims.Metadata, d merkletree.Data) merkletree.Data {
	h := m.Header()
	copy(d[0][0:8], h.Type[:])
	f := byte(h.Subject)
	if h.SubjectPos == claims.ClaimSubjectPosValue {
		f |= 4
	}
	if h.Expiration {
		f |= 8
	}
	if h.Version {
		f |= 16
	}
	d[0][8] = f
	if h.Subject != claims.ClaimSubjectSelf {
		if h.SubjectPos == claims.ClaimSubjectPosValue {
			copy(d[5][:31], m.Subject[:])
		} else {
			copy(d[1][:31], m.Subject[:])
		}
	}
	if h.Version {
		binary.LittleEndian.PutUint32(d[0][12:16], m.Version)
	}
	binary.LittleEndian.PutUint32(d[4][0:4], m.RevNonce)
	if h.Expiration {
		binary.LittleEndian.PutUint64(d[4][4:12], uint64(m.Expiration))
	}
	return d
}

func drawData(t *rapid.T) (d merkletree.Data) {
	for i := range d {
		copy(d[i][:31], drawBytes(t, 31, "elem"))
	}
	return d
}

func inField(d *merkletree.Data) bool {
	for i := range d {
		if mtx.Int(mtx.H(d[i])).Cmp(mtx.Q) >= 0 {
			return false
		}
	}
	return true
}

// freshHashes hashes the content, not what the entry may have cached.
func freshHashes(d *merkletree.Data) (merkletree.Hash, merkletree.Hash) {
	e := mtx.FromE(d)
	return merkletree.Hash(e.Hi()), merkletree.Hash(e.Hv())
}

func checkCached(t *rapid.T, what string, e *merkletree.Entry) {
	hi, hv, err := e.HiHv()
	if err != nil {
		t.Fatalf("%s: hashes: %v", what, err)
	}
	wi, wv := freshHashes(&e.Data)
	if *hi != wi || *hv != wv {
		t.Fatalf("%s: the hashes of the entry are not those of its content", what)
	}
}

// TestC01_Layout: the metadata lands where the layout says, nowhere else, and
// reads back.
func TestC01_Layout(t *testing.T) {
	rec := vh.NewRec("C01_Layout", "metadata with every combination of flags written onto entries with any content, compared byte by byte with the layout, and read back; non-trivial: the header has a subject, an expiration or a version")
	vh.Check(t, 20000, 600000, func(t *rapid.T) {
		m := drawMetadata(t, true)
		d := drawData(t)
		// the flags that the header leaves alone
		copy(d[0][8:12], []byte{d[0][8] & 0x1f, 0, 0, 0})
		e := &merkletree.Entry{Data: d}
		if rapid.Bool().Draw(t, "generic") {
			// through the claim that takes any entry: its content
			// is what was there, then what was set
			e.Data = layout(&m, d)
			warm := rapid.Bool().Draw(t, "warm")
			if warm {
				// an entry that has been used knows its hashes
				checkCached(t, "entry", e)
			}
			c := e.Clone()
			if c.Data != e.Data {
				t.Fatalf("the copy of an entry differs")
			}
			g := claims.NewClaimGeneric(c)
			if !warm && rapid.Bool().Draw(t, "own") {
				g = claims.NewClaimGeneric(e)
			}
			if got := g.Entry(); got.Data != e.Data {
				t.Fatalf("generic claim of %s changed\n%x\n%x", metaString(&m), e.Data, got.Data)
			}
			if !sameMeta(g.Metadata(), &m) {
				t.Fatalf("metadata %s read as %s", metaString(&m), metaString(g.Metadata()))
			}
			m.RevNonce = rapid.Uint32().Draw(t, "nonce2")
			g.Metadata().RevNonce = m.RevNonce
			got := g.Entry()
			if want := layout(&m, d); got.Data != want {
				t.Fatalf("generic claim with %s\n%x want\n%x", metaString(&m), got.Data, want)
			}
			checkCached(t, "generic claim", got)
		} else {
			m.Marshal(e)
			if want := layout(&m, d); e.Data != want {
				t.Fatalf("metadata %s written as\n%x want\n%x", metaString(&m), e.Data, want)
			}
			var r claims.Metadata
			r.Unmarshal(e)
			if !sameMeta(&r, &m) {
				t.Fatalf("metadata %s read as %s", metaString(&m), metaString(&r))
			}
		}
		if n := claims.GetRevocationNonce(&merkletree.Entry{Data: layout(&m, d)}); n != m.RevNonce {
			t.Fatalf("nonce %d read as %d", m.RevNonce, n)
		}
		h := m.Header()
		rec.LabelIf(h.Subject != claims.ClaimSubjectSelf && h.SubjectPos == claims.ClaimSubjectPosValue, "subject in the value")
		rec.Case(h.Subject != claims.ClaimSubjectSelf || h.Expiration || h.Version, "%s %x", metaString(&m), d[2][:4])
	})
}

// claim of one of the fixed types, with its content as the checks see it.
type fixed struct {
	c       claims.Claimer
	kind    string
	index   []byte // what goes into the index, besides the header
	value   []byte
	subject *core.ID
	key     [3]string
}

func drawClaim(t *rapid.T) fixed {
	var f fixed
	switch rapid.IntRange(0, 2).Draw(t, "claim") {
	case 0:
		var i [claims.IndexSlotLen]byte
		var v [claims.ValueSlotLen]byte
		copy(i[:], drawBytes(t, len(i), "index"))
		copy(v[:], drawBytes(t, len(v), "value"))
		f = fixed{c: claims.NewClaimBasic(i, v), kind: "basic", index: i[:], value: v[:]}
	case 1:
		id := drawID(t)
		var i [claims.IndexSubjectSlotLen]byte
		var v [claims.ValueSlotLen]byte
		copy(i[:], drawBytes(t, len(i), "index"))
		copy(v[:], drawBytes(t, len(v), "value"))
		f = fixed{c: claims.NewClaimOtherIden(&id, i, v), kind: "otheriden", index: i[:], value: v[:], subject: &id}
	case 2:
		var sk babyjub.PrivateKey
		binary.LittleEndian.PutUint16(sk[:], rapid.Uint16Range(0, 300).Draw(t, "key"))
		kt := claims.BabyJubKeyType(rapid.SampledFrom([]uint64{0, 1, 2, 1 << 63, ^uint64(0), 256}).Draw(t, "keytype"))
		pk := sk.Public()
		if rapid.IntRange(0, 3).Draw(t, "rawpoint") == 0 {
			// coordinates with leading zero bytes are as good as any
			x, y := mtx.Elem(false).Draw(t, "x"), mtx.Elem(false).Draw(t, "y")
			pk = &babyjub.PublicKey{X: mtx.Int(x), Y: mtx.Int(y)}
		}
		f = fixed{c: claims.NewClaimKeyBabyJub(pk, kt), kind: "key", key: [3]string{fmt.Sprint(uint64(kt)), pk.X.String(), pk.Y.String()}}
	}
	f.c.Metadata().RevNonce = rapid.Uint32().Draw(t, "nonce")
	return f
}

func contentOf(x merkletree.Entrier) (f fixed, ok bool) {
	switch c := x.(type) {
	case *claims.ClaimBasic:
		return fixed{c: c, kind: "basic", index: c.IndexSlot[:], value: c.ValueSlot[:]}, true
	case *claims.ClaimOtherIden:
		return fixed{c: c, kind: "otheriden", index: c.IndexSlot[:], value: c.ValueSlot[:], subject: c.Metadata().Subject}, true
	case *claims.ClaimKeyBabyJub:
		return fixed{c: c, kind: "key", key: [3]string{fmt.Sprint(uint64(c.KeyType)), c.Ax.String(), c.Ay.String()}}, true
	}
	return f, false
}

func (f fixed) String() string {
	return fmt.Sprintf("%s i=%x v=%x s=%v k=%v n=%d", f.kind, f.index, f.value, f.subject, f.key, f.c.Metadata().RevNonce)
}

func (f fixed) indexString() string { return fmt.Sprintf("%s %x %v %v", f.kind, f.index, f.subject, f.key) }

// TestC01_RoundTrip: claims of the fixed types come back from their entries;
// the index and the value hold what they should.
func TestC01_RoundTrip(t *testing.T) {
	rec := vh.NewRec("C01_RoundTrip", "pairs of claims of the fixed types with any content, through entries, bytes and hex, and into a tree; equal entries mean equal claims, equal indexes mean equal index content; non-trivial: the two claims are of the same type or share content")
	vh.Check(t, 6000, 200000, func(t *rapid.T) {
		a := drawClaim(t)
		b := drawClaim(t)
		if rapid.Bool().Draw(t, "related") {
			// b differs from a in one place only
			e := a.c.Entry()
			if rapid.Bool().Draw(t, "hashfirst") {
				_, _, err := e.HiHv()
				vh.Must(err)
			}
			x, err := claims.NewClaimFromEntry(e)
			if err != nil {
				t.Fatalf("%v: %v", a, err)
			}
			bf, ok := contentOf(x)
			if !ok {
				t.Fatalf("%v decoded as %T", a, x)
			}
			switch {
			case bf.kind != "key" && rapid.Bool().Draw(t, "inindex"):
				bf.index[rapid.IntRange(0, len(bf.index)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			case bf.kind != "key" && rapid.Bool().Draw(t, "invalue"):
				bf.value[rapid.IntRange(0, len(bf.value)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			default:
				bf.c.Metadata().RevNonce ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
			}
			b = bf
		}
		var ents []*merkletree.Entry
		for _, f := range []fixed{a, b} {
			e := f.c.Entry()
			if !inField(&e.Data) {
				t.Fatalf("%v has an element outside the field: %x", f, e.Data)
			}
			checkCached(t, f.kind, e)
			if n := claims.GetRevocationNonce(e); n != f.c.Metadata().RevNonce {
				t.Fatalf("%v: nonce %d in the entry", f, n)
			}
			x, err := claims.NewClaimFromEntry(e)
			if err != nil {
				t.Fatalf("%v: %v", f, err)
			}
			g, ok := contentOf(x)
			if !ok || g.String() != idString(f) {
				t.Fatalf("claim\n%s came back as\n%s", idString(f), g.String())
			}
			if !sameMeta(g.c.Metadata(), f.c.Metadata()) {
				t.Fatalf("metadata %s came back as %s", metaString(f.c.Metadata()), metaString(g.c.Metadata()))
			}
			if e2 := g.c.Entry(); e2.Data != e.Data {
				t.Fatalf("%v encodes in two ways", f)
			}
			hx := claims.ClaimToHex(f.c)
			hs := []string{hx, "0x" + hx}
			for _, h := range hs {
				gc, err := claims.HexToClaimGeneric(h)
				if err != nil {
					t.Fatalf("hex of %v: %v", f, err)
				}
				if got := gc.Entry(); got.Data != e.Data {
					t.Fatalf("%v came back from hex as\n%x want\n%x", f, got.Data, e.Data)
				}
				if !sameMeta(gc.Metadata(), f.c.Metadata()) {
					t.Fatalf("the metadata of %v came back from hex as %s", f, metaString(gc.Metadata()))
				}
				// each entry stays as it is, whatever becomes of the claim
				ge := gc.Entry()
				checkCached(t, "generic", ge)
				gc.Metadata().RevNonce ^= 5
				ge2 := gc.Entry()
				checkCached(t, "generic with another nonce", ge2)
				if ge.Data != e.Data || claims.GetRevocationNonce(ge2) != f.c.Metadata().RevNonce^5 {
					t.Fatalf("changing the nonce of %v from hex: %d, %d", f, claims.GetRevocationNonce(ge), claims.GetRevocationNonce(ge2))
				}
			}
			// what is changed later shows in the entry and its hashes
			old := f.c.Metadata().RevNonce
			f.c.Metadata().RevNonce = old + 1
			e3 := f.c.Entry()
			checkCached(t, f.kind+" with another nonce", e3)
			if claims.GetRevocationNonce(e3) != old+1 || claims.GetRevocationNonce(e) != old {
				t.Fatalf("changing the nonce of %v: %d, %d", f, claims.GetRevocationNonce(e3), claims.GetRevocationNonce(e))
			}
			f.c.Metadata().RevNonce = old
			ents = append(ents, e)
		}
		same := a.String() == idString(b)
		sameIdx := idIndex(a) == idIndex(b)
		if (ents[0].Data == ents[1].Data) != same {
			t.Fatalf("claims\n%v\n%v: same %v, entries same %v", a, b, same, ents[0].Data == ents[1].Data)
		}
		h0, _ := ents[0].HIndex()
		h1, _ := ents[1].HIndex()
		if (*h0 == *h1) != sameIdx {
			t.Fatalf("claims\n%v\n%v: same index content %v, same index %v", a, b, sameIdx, *h0 == *h1)
		}
		// a tree takes one claim per index
		mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
		vh.Must(err)
		if err := mt.AddClaim(a.c); err != nil {
			t.Fatalf("%v refused: %v", a, err)
		}
		if err := mt.AddClaim(b.c); (err == merkletree.ErrEntryIndexAlreadyExists) != sameIdx || (err == nil) == sameIdx {
			t.Fatalf("second claim %v after %v: %v", b, a, err)
		}
		if err := mt.EntryExists(a.c.Entry(), nil); err != nil {
			t.Fatalf("%v is not found: %v", a, err)
		}
		rec.Label("%s+%s", a.kind, b.kind)
		rec.Case(a.kind == b.kind, "%v | %v", a, b)
	})
}

func idString(f fixed) string { return f.String() }
func idIndex(f fixed) string  { return f.indexString() }

// TestC01_Leaves: the leaves of the roots and revocations trees.
func TestC01_Leaves(t *testing.T) {
	rec := vh.NewRec("C01_Leaves", "leaves of the roots tree and of the revocations tree; non-trivial: all")
	vh.Check(t, 4000, 60000, func(t *rapid.T) {
		root := merkletree.Hash(mtx.Elem(false).Draw(t, "root"))
		e := claims.NewLeafRootsTree(root).Entry()
		want := merkletree.Data{0: merkletree.ElemBytes(root)}
		if e.Data != want {
			t.Fatalf("leaf of %x is %x", root, e.Data)
		}
		if r := claims.NewLeafRootsTreeFromEntry(e).Root; r != root {
			t.Fatalf("root %x came back as %x", root, r)
		}
		n, v := rapid.Uint32().Draw(t, "nonce"), rapid.Uint32().Draw(t, "version")
		l := claims.NewLeafRevocationsTree(n, v)
		e = l.Entry()
		want = merkletree.Data{}
		binary.LittleEndian.PutUint32(want[0][:], n)
		binary.LittleEndian.PutUint32(want[4][:], v)
		if e.Data != want {
			t.Fatalf("leaf of nonce %d version %d is %x", n, v, e.Data)
		}
		if r := claims.NewLeafRevocationsTreeFromEntry(e); *r != *l {
			t.Fatalf("leaf %v came back as %v", l, r)
		}
		mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
		vh.Must(err)
		if rapid.Bool().Draw(t, "roots") {
			if err := claims.AddLeafRootsTree(mt, &root); err != nil {
				t.Fatalf("add root: %v", err)
			}
			if err := mt.EntryExists(claims.NewLeafRootsTree(root).Entry(), nil); err != nil {
				t.Fatalf("root not found: %v", err)
			}
		} else {
			if err := claims.AddLeafRevocationsTree(mt, n, v); err != nil {
				t.Fatalf("add revocation: %v", err)
			}
			if err := mt.EntryExists(l.Entry(), nil); err != nil {
				t.Fatalf("revocation not found: %v", err)
			}
			// a nonce is revoked once, whatever the version
			if err := claims.AddLeafRevocationsTree(mt, n, v+1); err != merkletree.ErrEntryIndexAlreadyExists {
				t.Fatalf("second revocation: %v", err)
			}
		}
		rec.Case(true, "%x %d %d", root, n, v)
	})
}

// TestC02_Metadata: metadata come back from JSON; types, subjects and positions
// from text; malformed text is refused and what is accepted can be used.
func TestC02_Metadata(t *testing.T) {
	rec := vh.NewRec("C02_Metadata", "metadata with any header through JSON, and JSON objects with members missing, null, of another type or contradicting the type; non-trivial: a malformed object was tried")
	vh.Check(t, 12000, 300000, func(t *rapid.T) {
		m := drawMetadata(t, false)
		bs, err := json.Marshal(m)
		if err != nil {
			t.Fatalf("%s: %v", metaString(&m), err)
		}
		var r claims.Metadata
		if rapid.Bool().Draw(t, "over another") {
			r = drawMetadata(t, false)
		}
		used := r
		if err := json.Unmarshal(bs, &r); err != nil {
			t.Fatalf("%s: %s: %v", metaString(&m), bs, err)
		}
		// what the claim does not have may be left as it was
		if h := m.Header(); r.Header() == h {
			if h.Subject == claims.ClaimSubjectSelf && r.Subject == used.Subject {
				r.Subject = m.Subject
			}
			if !h.Expiration && r.Expiration == used.Expiration {
				r.Expiration = m.Expiration
			}
			if !h.Version && r.Version == used.Version {
				r.Version = m.Version
			}
		}
		if !sameMeta(&r, &m) {
			t.Fatalf("%s came back as %s", metaString(&m), metaString(&r))
		}
		// break it
		var o map[string]interface{}
		vh.Must(json.Unmarshal(bs, &o))
		ks := []string{"Type", "Subject", "SubjectPos", "ID", "Expiration", "Version", "RevNonce"}
		how := ""
		for i := rapid.IntRange(0, 3).Draw(t, "edits"); i > 0; i-- {
			k := rapid.SampledFrom(ks).Draw(t, "member")
			switch rapid.IntRange(0, 3).Draw(t, "edit") {
			case 0:
				delete(o, k)
			case 1:
				o[k] = nil
			case 2:
				o[k] = rapid.SampledFrom([]interface{}{"", "str:Basic", "str:OtherIden", "str:", "str:x", "hex:", "hex:00", "hex:0x0000000000000000", "hex:0000000000000003", "hex:zz00000000000003", "Self", "OtherIden", "Object", "Index", "Value", 0, -1, 1e30, 4294967296, true, []int{1}}).Draw(t, "junk")
			case 3:
				id := drawID(t)
				o[k] = id.String()
			}
			how += k + " "
		}
		bs2, err := json.Marshal(o)
		vh.Must(err)
		var w claims.Metadata
		var werr error
		if msg := vh.Catch(func() { werr = json.Unmarshal(bs2, &w) }); msg != "" {
			t.Fatalf("decoding %s: %s", bs2, msg)
		}
		if werr == nil {
			h := w.Header()
			if h.Subject != claims.ClaimSubjectSelf && w.Subject == nil {
				t.Fatalf("%s was accepted: a claim about another subject, without the subject", bs2)
			}
			for ty, fh := range map[claims.ClaimType]claims.ClaimHeader{claims.ClaimTypeBasic: claims.ClaimHeaderBasic, claims.ClaimTypeKeyBabyJub: claims.ClaimHeaderKeyBabyJub, claims.ClaimTypeOtherIden: claims.ClaimHeaderOtherIden} {
				if h.Type == ty && h != fh {
					t.Fatalf("%s was accepted with the header %+v", bs2, h)
				}
			}
			var e merkletree.Entry
			if msg := vh.Catch(func() { w.Marshal(&e) }); msg != "" {
				t.Fatalf("%s was accepted and can't be written: %s", bs2, msg)
			}
			bs3, err := json.Marshal(w)
			if err != nil {
				t.Fatalf("%s was accepted and can't be encoded: %v", bs2, err)
			}
			var z claims.Metadata
			if err := json.Unmarshal(bs3, &z); err != nil || !sameMeta(&z, &w) {
				t.Fatalf("%s: %s came back as %s, %v", bs2, metaString(&w), metaString(&z), err)
			}
		}
		rec.LabelIf(werr == nil && how != "", "edited and accepted")
		rec.LabelIf(werr != nil, "refused")
		rec.Case(how != "", "%s", bs2)
	})
}

// TestC02_TypeText: the text of claim types.
func TestC02_TypeText(t *testing.T) {
	rec := vh.NewRec("C02_TypeText", "claim types, subjects and positions through text, and any text; non-trivial: all")
	vh.Check(t, 12000, 300000, func(t *rapid.T) {
		h := drawHeader(t, true)
		txt, err := h.Type.MarshalText()
		if err != nil {
			t.Fatalf("%x: %v", h.Type, err)
		}
		var r claims.ClaimType
		if err := r.UnmarshalText(txt); err != nil || r != h.Type {
			t.Fatalf("%x as %q came back as %x, %v", h.Type, txt, r, err)
		}
		st, err := h.Subject.MarshalText()
		var s claims.ClaimSubject
		if err != nil || s.UnmarshalText(st) != nil || s != h.Subject {
			t.Fatalf("subject %v as %q: %v, %v", h.Subject, st, s, err)
		}
		pt, err := h.SubjectPos.MarshalText()
		var p claims.ClaimSubjectPos
		if err != nil || p.UnmarshalText(pt) != nil || p != h.SubjectPos {
			t.Fatalf("position %v as %q: %v, %v", h.SubjectPos, pt, p, err)
		}
		raw := rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"str:", "hex:", "str:Basic ", "str:basic", "hex:00000000000000000", "hex:0000000000000000ff", "hex:0000000000000001ff", "hex:01020304050607", "hex:0102030405060708", "hex:0x0102030405060708", "hex:0x010203040506070809", "0102030405060708", "Self ", "index", string(txt) + "0", string(txt[1:])})).Draw(t, "raw")
		var x claims.ClaimType
		if msg := vh.Catch(func() { err = x.UnmarshalText([]byte(raw)) }); msg != "" {
			t.Fatalf("type of %q: %s", raw, msg)
		}
		if err == nil {
			b, err := x.MarshalText()
			var y claims.ClaimType
			if err != nil || y.UnmarshalText(b) != nil || x != y {
				t.Fatalf("%q read as %x, then as %x", raw, x, y)
			}
		}
		if err == nil && raw != string(txt) {
			// a name, or exactly 8 bytes
			n := strings.TrimPrefix(strings.TrimPrefix(raw, "hex:"), "0x")
			if !strings.HasPrefix(raw, "str:") && len(n) != 16 {
				t.Fatalf("the text %q is accepted as the type %x", raw, x)
			}
		}
		if s.UnmarshalText([]byte(raw)) == nil && raw != "Self" && raw != "OtherIden" && raw != "Object" {
			t.Fatalf("subject %q was accepted", raw)
		}
		if p.UnmarshalText([]byte(raw)) == nil && raw != "Index" && raw != "Value" {
			t.Fatalf("position %q was accepted", raw)
		}
		rec.Case(true, "%x %q", h.Type, raw)
	})
}

// TestC02_Total: decoding any entry or hex is a claim or an error, never a crash.
func TestC02_Total(t *testing.T) {
	rec := vh.NewRec("C02_Total", "entries and hex strings with any bytes, also outside the field and with any flags; non-trivial: the type is one of the known ones or the flags are not zero")
	vh.Check(t, 20000, 600000, func(t *rapid.T) {
		d := drawData(t)
		if rapid.Bool().Draw(t, "knowntype") {
			ct := claims.NewClaimTypeNum(rapid.Uint64Range(0, 3).Draw(t, "num"))
			copy(d[0][:8], ct[:])
		}
		d[0][8] = rapid.Byte().Draw(t, "flags")
		for i := rapid.IntRange(0, 2).Draw(t, "tops"); i > 0; i-- {
			d[rapid.IntRange(0, 7).Draw(t, "top")][31] = rapid.Byte().Draw(t, "topbyte")
		}
		e := &merkletree.Entry{Data: d}
		var x merkletree.Entrier
		var err error
		if msg := vh.Catch(func() { x, err = claims.NewClaimFromEntry(e) }); msg != "" {
			t.Fatalf("decoding the entry %x: %s", d, msg)
		}
		if err == nil {
			if !inField(&d) {
				t.Fatalf("an entry outside the field became a claim: %x", d)
			}
			if _, ok := contentOf(x); !ok {
				t.Fatalf("the entry %x became a %T", d, x)
			}
			if msg := vh.Catch(func() { x.Entry() }); msg != "" {
				t.Fatalf("encoding the claim of %x: %s", d, msg)
			}
		}
		if msg := vh.Catch(func() {
			g := claims.NewClaimGeneric(&merkletree.Entry{Data: d})
			g.Entry()
			g.Metadata().Header()
		}); msg != "" {
			t.Fatalf("generic claim of %x: %s", d, msg)
		}
		// hex
		bs := (&merkletree.Entry{Data: d}).Bytes()
		h := hex.EncodeToString(bs)
		bad := true
		switch rapid.IntRange(0, 4).Draw(t, "hex") {
		case 0:
			h = h[:rapid.IntRange(0, len(h)-1).Draw(t, "cut")]
		case 1:
			h += "00"
		case 2:
			i := rapid.IntRange(0, len(h)-1).Draw(t, "at")
			h = h[:i] + rapid.SampledFrom([]string{"g", " ", "-", "é"}).Draw(t, "junk") + h[i+1:]
		default:
			bad = false
		}
		var g claims.ClaimGeneric
		if msg := vh.Catch(func() { g, err = claims.HexToClaimGeneric(h) }); msg != "" {
			t.Fatalf("claim from hex %q: %s", h, msg)
		}
		if bad && err == nil {
			t.Fatalf("malformed hex became a claim: %q (%d digits)", h, len(h))
		}
		if !bad && err != nil {
			t.Fatalf("claim from hex %q: %v", h, err)
		}
		_ = g
		// several: all, or an error
		good := hex.EncodeToString(bs)
		var gs []claims.ClaimGeneric
		hs := make([]string, rapid.IntRange(0, 4).Draw(t, "several"))
		for i := range hs {
			hs[i] = good
		}
		with := false
		if len(hs) > 0 {
			with = bad
			hs[rapid.IntRange(0, len(hs)-1).Draw(t, "where")] = h
		}
		if msg := vh.Catch(func() { gs, err = claims.HexArrayToClaimGenericArray(hs) }); msg != "" {
			t.Fatalf("claims from hex %q: %s", hs, msg)
		}
		if with && err == nil {
			t.Fatalf("claims from hex %q: no error", hs)
		}
		if !with {
			if err != nil || len(gs) != len(hs) {
				t.Fatalf("claims from hex %q: %d, %v", hs, len(gs), err)
			}
			var es []merkletree.Entrier
			for i := range gs {
				es = append(es, &gs[i])
			}
			for i, x := range claims.ClaimArrayToHexArray(es) {
				if x != claims.ClaimToHex(&gs[i]) || len(x) != len(good) {
					t.Fatalf("claim %d to hex: %s", i, x)
				}
			}
			if len(claims.ClaimArrayToHexArray(es)) != len(es) {
				t.Fatalf("%d claims to hex: some are missing", len(es))
			}
		}
		rec.LabelIf(err == nil, "hex accepted")
		rec.Case(d[0][8] != 0, "%x", d[0])
	})
}

func drawHash(t *rapid.T) *merkletree.Hash {
	h := merkletree.Hash(mtx.Elem(false).Draw(t, "hash"))
	return &h
}

func drawProof(t *rapid.T) *merkletree.Proof {
	es := mtx.Cluster(0, 6).Draw(t, "tree")
	set := mtx.Set{}
	for _, e := range es {
		if _, ok := set[e.Hi()]; !ok {
			set[e.Hi()] = e
		}
	}
	p, err := merkletree.NewProofFromBytes(set.Proof(mtx.CraftedHi(set).Draw(t, "hi")).Bytes())
	vh.Must(err)
	return p
}

// TestC02_Credentials: credentials come back from JSON.
func TestC02_Credentials(t *testing.T) {
	rec := vh.NewRec("C02_Credentials", "credentials of existence and of validity with any content through JSON; non-trivial: all")
	vh.Check(t, 1500, 40000, func(t *rapid.T) {
		id := drawID(t)
		if id == (core.ID{}) {
			t.Skip("empty id")
		}
		isd := func() proof.IdenStateData {
			return proof.IdenStateData{BlockTs: rapid.Int64().Draw(t, "ts"), BlockN: rapid.Uint64().Draw(t, "n"), IdenState: drawHash(t)}
		}
		f := drawClaim(t)
		ce := proof.CredentialExistence{
			Id: &id, IdenStateData: isd(), MtpClaim: drawProof(t), Claim: &merkletree.Entry{Data: f.c.Entry().Data},
			RevocationsTreeRoot: drawHash(t), RootsTreeRoot: drawHash(t), IdenPubUrl: rapid.SampledFrom([]string{"", "http://x", "é\"\\"}).Draw(t, "url"),
		}
		cv := proof.CredentialValidity{CredentialExistence: ce, IdenStateData: isd(), MtpNotNonce: drawProof(t), ClaimsTreeRoot: drawHash(t), RootsTreeRoot: drawHash(t)}
		bs, err := json.Marshal(cv)
		if err != nil {
			t.Fatalf("encode: %v", err)
		}
		var r proof.CredentialValidity
		if err := json.Unmarshal(bs, &r); err != nil {
			t.Fatalf("decode %s: %v", bs, err)
		}
		if !reflect.DeepEqual(cv, r) {
			t.Fatalf("%s came back different", bs)
		}
		if cv.String() == "" || ce.String() == "" {
			t.Fatalf("no text")
		}
		rec.Case(true, "%s", bs[:120])
	})
}

// TestI01_ID: identifiers.
func TestI01_ID(t *testing.T) {
	rec := vh.NewRec("I01_ID", "identifiers of any type and genesis through text, JSON, bytes and numbers; with bytes changed, lengths wrong, or as any text; non-trivial: a corrupted identifier was tried")
	vh.Check(t, 30000, 800000, func(t *rapid.T) {
		id := drawID(t)
		if rapid.IntRange(0, 9).Draw(t, "fromstate") == 0 {
			h := merkletree.Hash(mtx.Elem(false).Draw(t, "state"))
			p := core.IdGenesisFromIdenState(&h)
			if !bytes.Equal(p[2:29], h[5:32]) || p[0] != 0 || p[1] != 0 {
				t.Fatalf("genesis id of %x is %x", h, p[:])
			}
			id = *p
		}
		empty := id == core.ID{}
		typ, gen, sum, err := core.DecomposeID(id)
		if err != nil || core.NewID(typ, gen) != id || core.CalculateChecksum(typ, gen) != sum {
			t.Fatalf("%x decomposes into %x %x %x, %v", id[:], typ, gen, sum, err)
		}
		want := uint16(0)
		for _, b := range id[:29] {
			want += uint16(b)
		}
		if binary.BigEndian.Uint16(sum[:]) != want {
			t.Fatalf("checksum of %x", id[:])
		}
		ok := func(got core.ID, err error, what string) {
			if empty {
				if err == nil {
					t.Fatalf("the empty id was read from %s", what)
				}
				return
			}
			if err != nil || got != id {
				t.Fatalf("%x came back from %s as %x, %v", id[:], what, got[:], err)
			}
		}
		g, err := core.IDFromBytes(id.Bytes())
		ok(g, err, "bytes")
		g, err = core.IDFromString(id.String())
		ok(g, err, "text")
		txt, err := id.MarshalText()
		vh.Must(err)
		var u core.ID
		err = u.UnmarshalText(txt)
		ok(u, err, "marshalled text")
		js, err := json.Marshal(&id)
		vh.Must(err)
		var v core.ID
		err = json.Unmarshal(js, &v)
		ok(v, err, "JSON")
		if core.CheckChecksum(id) == empty {
			t.Fatalf("checksum of %x: %v", id[:], !empty)
		}
		be := common.SwapEndianness(id[:])
		if id.BigInt().Cmp(new(big.Int).SetBytes(be)) != 0 {
			t.Fatalf("number of %x is %v", id[:], id.BigInt())
		}
		if !id.Equal(&g) && !empty || !id.Equals(&id) {
			t.Fatalf("not equal to itself")
		}
		// corrupt it
		var bad []byte
		how := rapid.IntRange(0, 4).Draw(t, "corrupt")
		switch how {
		case 0: // one byte
			bad = append([]byte{}, id[:]...)
			bad[rapid.IntRange(0, 30).Draw(t, "at")] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
		case 1: // checksum zero
			bad = append([]byte{}, id[:29]...)
			bad = append(bad, 0, 0)
		case 2:
			bad = append([]byte{}, id[:rapid.IntRange(0, 30).Draw(t, "len")]...)
		case 3:
			bad = append(append([]byte{}, id[:]...), rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, "tail")...)
		case 4:
			bad = rapid.SliceOfN(rapid.Byte(), 31, 31).Draw(t, "any")
		}
		valid := func(b []byte) bool {
			if len(b) != 31 {
				return false
			}
			s := uint16(0)
			for _, x := range b[:29] {
				s += uint16(x)
			}
			return s != 0 && binary.BigEndian.Uint16(b[29:]) == s
		}
		got, err := core.IDFromBytes(bad)
		if (err == nil) != valid(bad) || err == nil && !bytes.Equal(got[:], bad) {
			t.Fatalf("corrupted %x: read as %x, %v", bad, got[:], err)
		}
		if how == 0 && err == nil {
			t.Fatalf("a changed byte went unnoticed: %x %x", id[:], bad)
		}
		if len(bad) == 31 {
			var arr core.ID
			copy(arr[:], bad)
			if core.CheckChecksum(arr) != valid(bad) {
				t.Fatalf("checksum of %x", bad)
			}
			if got, err := core.IDFromString(arr.String()); (err == nil) != valid(bad) || err == nil && got != arr {
				t.Fatalf("text of the corrupted %x: %v", bad, err)
			}
		}
		// any text
		s := rapid.OneOf(rapid.String(), rapid.StringOfN(rapid.RuneFrom([]rune("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl ")), 0, 50, -1)).Draw(t, "text")
		if rapid.Bool().Draw(t, "edited") {
			b := []byte(id.String())
			if len(b) > 0 {
				b[rapid.IntRange(0, len(b)-1).Draw(t, "tat")] = rapid.SampledFrom([]byte("123zZ0 l\x80")).Draw(t, "tb")
			}
			s = string(b)
		}
		var sid core.ID
		if msg := vh.Catch(func() { sid, err = core.IDFromString(s) }); msg != "" {
			t.Fatalf("id of %q: %s", s, msg)
		}
		if err == nil && (!valid(sid[:]) || sid.String() != s) {
			t.Fatalf("%q was read as the id %x = %s", s, sid[:], sid.String())
		}
		rec.Label("corruption %d", how)
		rec.Case(!empty, "%x %x", id[:], bad)
	})
}
