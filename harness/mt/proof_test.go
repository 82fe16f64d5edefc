package mt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"

	"verifharness/mtx"
	"verifharness/vh"
)

type past struct {
	root H
	s    mtx.Set
}

// grow builds a tree from generated entries and returns every root it had.
func grow(t *rapid.T, mt *merkletree.MerkleTree, es []mtx.Entry, levels int) []past {
	s := mtx.Set{}
	h := []past{{rootOf(mt), mtx.Set{}}}
	for _, e := range es {
		if add(t, mt, s, e, levels, false) {
			h = append(h, past{rootOf(mt), s.Clone()})
		}
	}
	return h
}

// checkProof compares a proof with the one defined for hi in s.
func checkProof(t *rapid.T, p *merkletree.Proof, s mtx.Set, hi H, root H, otherHv H) mtx.RefProof {
	ref := s.Proof(hi)
	e, present := s[hi]
	if p.Existence != present {
		t.Fatalf("proof says present=%v, the tree says %v", p.Existence, present)
	}
	hv := otherHv
	if present {
		hv = e.Hv()
	}
	if !merkletree.VerifyProof(mtx.Hash(root), p, mtx.Hash(hi), mtx.Hash(hv)) {
		t.Fatalf("an honest proof (existence %v, depth %d) does not verify", present, len(ref.Siblings))
	}
	got, err := merkletree.RootFromProof(p, mtx.Hash(hi), mtx.Hash(hv))
	if err != nil || H(*got) != root {
		t.Fatalf("root from an honest proof: %v, %v", got, err)
	}
	sib := p.AllSiblings()
	if len(sib) != len(ref.Siblings) {
		t.Fatalf("proof lists %d siblings, by definition %d", len(sib), len(ref.Siblings))
	}
	for i := range sib {
		if H(*sib[i]) != ref.Siblings[i] {
			t.Fatalf("sibling %d is %x, by definition %x", i, *sib[i], ref.Siblings[i])
		}
	}
	// what is given out belongs to the caller
	for _, x := range append(sib, got) {
		if *x == (merkletree.Hash{}) {
			x[3] = 1
			if merkletree.HashZero != (merkletree.Hash{}) {
				merkletree.HashZero = merkletree.Hash{}
				t.Fatalf("a proof gives out the zero hash of the package itself")
			}
		}
	}
	if (p.NodeAux != nil) != ref.Aux {
		t.Fatalf("proof carries another leaf: %v, by definition %v", p.NodeAux != nil, ref.Aux)
	}
	if ref.Aux && (H(*p.NodeAux.HIndex) != ref.AuxHi || H(*p.NodeAux.HValue) != ref.AuxHv) {
		t.Fatalf("proof carries the wrong other leaf")
	}
	return ref
}

// TestM03_ProofComplete: every question about every root the tree ever had can
// be answered by a proof that verifies.
func TestM03_ProofComplete(t *testing.T) {
	rec := vh.NewRec("M03_ProofComplete", "trees grown from entries with colliding paths; proofs for present, absent and prefix-sharing indexes at the current and at past roots, compared with the proof by definition, verified, and verified again after a round trip through bytes and JSON; non-trivial: depth of at least 2, or a past root")
	vh.Check(t, 2000, 50000, func(t *rapid.T) {
		b := drawBox(t)
		defer b.Close()
		levels := mtx.Levels().Draw(t, "levels")
		mt := open(t, b, levels)
		hist := grow(t, mt, mtx.Cluster(0, 20).Draw(t, "entries"), levels)
		if rapid.Bool().Draw(t, "reopen") {
			b.Reopen()
			mt = open(t, b, levels)
		}
		for n := rapid.IntRange(1, 6).Draw(t, "queries"); n > 0; n-- {
			at := hist[len(hist)-1]
			var rootArg *merkletree.Hash
			isPast := rapid.Bool().Draw(t, "past")
			src := mt
			if isPast {
				at = hist[rapid.IntRange(0, len(hist)-1).Draw(t, "when")]
				rootArg = mtx.Hash(at.root)
				if rapid.Bool().Draw(t, "snapshot") {
					var err error
					if src, err = mt.Snapshot(rootArg); err != nil {
						t.Fatalf("snapshot: %v", err)
					}
					rootArg = nil
				}
			}
			hi := mtx.CraftedHi(at.s).Draw(t, "hi")
			otherHv := mtx.Elem(false).Draw(t, "hv")
			p, err := src.GenerateProof(mtx.Hash(hi), rootArg)
			if err != nil {
				t.Fatalf("generating a proof for a stored root failed: %v (levels %d, set %d)", err, levels, len(at.s))
			}
			ref := checkProof(t, p, at.s, hi, at.root, otherHv)
			enc := p.Bytes()
			if !bytes.Equal(enc, ref.Bytes()) {
				t.Fatalf("the encoding of the proof is %x, by definition %x", enc, ref.Bytes())
			}
			p2, err := merkletree.NewProofFromBytes(enc)
			if err != nil {
				t.Fatalf("parsing an encoded proof: %v", err)
			}
			checkProof(t, p2, at.s, hi, at.root, otherHv)
			js, err := json.Marshal(p)
			if err != nil {
				t.Fatalf("marshalling a proof: %v", err)
			}
			p3 := &merkletree.Proof{}
			if err := json.Unmarshal(js, p3); err != nil {
				t.Fatalf("unmarshalling a proof: %v", err)
			}
			checkProof(t, p3, at.s, hi, at.root, otherHv)
			// the list handed to a circuit: padded with zeros to levels+1
			lv := len(ref.Siblings) + rapid.IntRange(0, 20).Draw(t, "pad")
			cs := p.AllSiblingsCircom(lv)
			if len(cs) != lv+1 {
				t.Fatalf("the circuit siblings are %d, want %d", len(cs), lv+1)
			}
			for i, c := range cs {
				var want H
				if i < len(ref.Siblings) {
					want = ref.Siblings[i]
				}
				if mtx.FromInt(c) != want {
					t.Fatalf("circuit sibling %d is %v", i, c)
				}
			}
			_ = p.String()
			rec.LabelIf(p.Existence, "existence")
			rec.LabelIf(!p.Existence && p.NodeAux == nil, "non-existence, empty place")
			rec.LabelIf(!p.Existence && p.NodeAux != nil, "non-existence, another leaf")
			rec.LabelIf(isPast, "past root")
			rec.Label("depth %d0s", len(ref.Siblings)/10)
			rec.Case(len(ref.Siblings) >= 2 || isPast, "%d entries at root %x.. hi %x.. depth %d", len(at.s), at.root[:4], hi[:6], len(ref.Siblings))
		}
	})
}

// parseRef reads the documented encoding independently.
func parseRef(b []byte) (p mtx.RefProof, ok bool) {
	if len(b) < 32 {
		return p, false
	}
	p.Existence = b[0]&1 == 0
	depth := int(b[1])
	if depth > 240 {
		return p, false
	}
	rest := b[32:]
	for i := 0; i < depth; i++ {
		var s H
		if b[31-i/8]&(1<<(uint(i)%8)) != 0 {
			if len(rest) < 32 {
				return p, false
			}
			copy(s[:], rest)
			rest = rest[32:]
		}
		p.Siblings = append(p.Siblings, s)
	}
	if !p.Existence && b[0]&2 != 0 {
		if len(rest) != 64 {
			return p, false
		}
		p.Aux = true
		copy(p.AuxHi[:], rest)
		copy(p.AuxHv[:], rest[32:])
	}
	return p, true
}

// attack generates an encoded proof meant to deceive a verifier about (hi, hv).
func attack(t *rapid.T, mt *merkletree.MerkleTree, hist []past, at past) (enc []byte, hi, hv H, kind string) {
	ks := at.s.Keys()
	hi = mtx.CraftedHi(at.s).Draw(t, "hi")
	e, present := at.s[hi]
	hv = mtx.Elem(false).Draw(t, "hv")
	if present && rapid.Bool().Draw(t, "truehv") {
		hv = e.Hv()
	}
	ref := at.s.Proof(hi)
	kind = rapid.SampledFrom([]string{"honest", "flip", "selfaux", "noaux", "truncate", "extend", "sibling", "otherroot", "otherkey", "swap", "inner", "bytes", "synthetic", "auxswap"}).Draw(t, "attack")
	switch kind {
	case "honest":
	case "flip": // claim the opposite
		ref.Existence = !ref.Existence
		if ref.Existence {
			ref.Aux = false
		}
	case "selfaux": // deny a present index, showing its own leaf as the other one
		ref.Existence = false
		ref.Aux, ref.AuxHi = true, hi
		if present {
			ref.AuxHv = e.Hv()
		}
	case "noaux":
		ref.Existence, ref.Aux = false, false
	case "truncate":
		if n := len(ref.Siblings); n > 0 {
			ref.Siblings = ref.Siblings[:rapid.IntRange(0, n-1).Draw(t, "keep")]
		}
		if rapid.Bool().Draw(t, "deny") {
			ref.Existence, ref.Aux = false, rapid.Bool().Draw(t, "aux")
			if ref.Aux && len(ks) > 0 {
				ref.AuxHi = ks[rapid.IntRange(0, len(ks)-1).Draw(t, "auxk")]
				ref.AuxHv = at.s[ref.AuxHi].Hv()
			}
		}
	case "extend":
		for n := rapid.IntRange(1, 4).Draw(t, "more"); n > 0; n-- {
			ref.Siblings = append(ref.Siblings, mtx.Elem(false).Draw(t, "sib"))
		}
	case "sibling":
		if n := len(ref.Siblings); n > 0 {
			i := rapid.IntRange(0, n-1).Draw(t, "i")
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0:
				ref.Siblings[i] = H{}
			case 1:
				ref.Siblings[i][rapid.IntRange(0, 30).Draw(t, "byte")] ^= 1
			case 2:
				j := rapid.IntRange(0, n-1).Draw(t, "j")
				ref.Siblings[i], ref.Siblings[j] = ref.Siblings[j], ref.Siblings[i]
			default:
				ref.Siblings[i] = mtx.Elem(true).Draw(t, "bad")
			}
		}
	case "otherroot":
		o := hist[rapid.IntRange(0, len(hist)-1).Draw(t, "o")]
		ref = o.s.Proof(hi)
		if x, ok := o.s[hi]; ok {
			hv = x.Hv()
		}
	case "otherkey": // the proof of one index presented for another
		o := mtx.CraftedHi(at.s).Draw(t, "o")
		ref = at.s.Proof(o)
		if x, ok := at.s[o]; ok && rapid.Bool().Draw(t, "usehv") {
			hv = x.Hv()
		}
	case "swap": // index and value exchanged
		if len(ks) > 0 {
			k := ks[rapid.IntRange(0, len(ks)-1).Draw(t, "k")]
			ref = at.s.Proof(k)
			hi, hv = at.s[k].Hv(), k
		}
	case "inner": // an inner node presented as a leaf
		if len(ks) > 1 {
			k := ks[rapid.IntRange(0, len(ks)-1).Draw(t, "k")]
			p := at.s.Proof(k)
			lvl := rapid.IntRange(0, len(p.Siblings)-1).Draw(t, "lvl")
			// children of the node at lvl on the path of k
			q := mtx.RefProof{Existence: true, Siblings: p.Siblings[lvl+1:]}
			sub := subRoot(at.s, k, lvl+1)
			_ = q
			l, r := sub, p.Siblings[lvl]
			if mtx.Bit(k, lvl) {
				l, r = r, l
			}
			ref = mtx.RefProof{Existence: true, Siblings: append([]H(nil), p.Siblings[:lvl]...)}
			hi, hv = l, r
			if rapid.Bool().Draw(t, "asaux") {
				ref.Existence, ref.Aux, ref.AuxHi, ref.AuxHv = false, true, l, r
				hi = k
			}
		}
	case "auxswap":
		if ref.Aux && len(ks) > 0 {
			ref.AuxHi = ks[rapid.IntRange(0, len(ks)-1).Draw(t, "k")]
			if rapid.Bool().Draw(t, "auxhv") {
				ref.AuxHv = mtx.Elem(false).Draw(t, "v")
			}
		}
	case "synthetic":
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 8, 64, 139, 140, 141, 200, 239, 240}).Draw(t, "depth")
		ref = mtx.RefProof{Existence: rapid.Bool().Draw(t, "ex")}
		g := mtx.Elem(false)
		for i := 0; i < n; i++ {
			if i == n-1 || rapid.IntRange(0, 15).Draw(t, "z") == 0 {
				ref.Siblings = append(ref.Siblings, g.Draw(t, "sib"))
			} else {
				ref.Siblings = append(ref.Siblings, H{})
			}
		}
		if !ref.Existence && rapid.Bool().Draw(t, "aux") {
			ref.Aux, ref.AuxHi, ref.AuxHv = true, g.Draw(t, "ah"), g.Draw(t, "av")
		}
	}
	enc = ref.Bytes()
	if kind == "bytes" && len(enc) > 0 {
		for n := rapid.IntRange(1, 3).Draw(t, "edits"); n > 0; n-- {
			i := rapid.IntRange(0, len(enc)-1).Draw(t, "at")
			if rapid.IntRange(0, 3).Draw(t, "hdr") == 0 {
				i = rapid.IntRange(0, 1).Draw(t, "hdrat")
			}
			enc[i] = rapid.Byte().Draw(t, "val")
		}
	}
	return enc, hi, hv, kind
}

// subRoot is the node at a level on the path of k.
func subRoot(s mtx.Set, k H, lvl int) H {
	p := s.Proof(k)
	key, _ := mtx.Leaf(k, s[k].Hv())
	for i := len(p.Siblings) - 1; i >= lvl; i-- {
		if mtx.Bit(k, i) {
			key, _ = mtx.Mid(p.Siblings[i], key)
		} else {
			key, _ = mtx.Mid(key, p.Siblings[i])
		}
	}
	return key
}

// TestM04_ProofSound: nothing but the truth verifies against an honest root.
func TestM04_ProofSound(t *testing.T) {
	rec := vh.NewRec("M04_ProofSound", "attacks on an honest root: flipped, truncated, extended, transplanted, reordered, byte-edited and synthetic proofs, leaves shown as their own neighbour, inner nodes shown as leaves; the verdict must equal the truth about the set and the root computed by an independent fold; non-trivial: the proof parses and is not the honest one")
	vh.Check(t, 2000, 60000, func(t *rapid.T) {
		b := drawBox(t)
		defer b.Close()
		mt := open(t, b, 140)
		hist := grow(t, mt, mtx.Cluster(1, 14).Draw(t, "entries"), 140)
		at := hist[len(hist)-1]
		for n := rapid.IntRange(1, 12).Draw(t, "attacks"); n > 0; n-- {
			enc, hi, hv, kind := attack(t, mt, hist, at)
			ref, refOK := parseRef(enc)
			var p *merkletree.Proof
			var err error
			if msg := vh.Catch(func() { p, err = merkletree.NewProofFromBytes(enc) }); msg != "" {
				t.Fatalf("parsing %x panics: %s", enc, msg)
			}
			if (err == nil) != refOK {
				// A stricter parser would be sound as well, but every
				// honest encoding has to parse.
				if err == nil || kind == "honest" {
					t.Fatalf("parsing %x: %v, by definition ok=%v", enc, err, refOK)
				}
				rec.Label("refused by a stricter parser")
				continue
			}
			if err != nil {
				rec.Label("%s: does not parse", kind)
				continue
			}
			var ok bool
			if msg := vh.Catch(func() { ok = merkletree.VerifyProof(mtx.Hash(at.root), p, mtx.Hash(hi), mtx.Hash(hv)) }); msg != "" {
				t.Fatalf("verifying %x panics: %s", enc, msg)
			}
			fold, foldOK := ref.Fold(hi, hv)
			want := foldOK && fold == at.root
			if ok != want {
				t.Fatalf("%s: verdict %v, by definition %v (proof %x, hi %x, hv %x)", kind, ok, want, enc, hi, hv)
			}
			got, rerr := merkletree.RootFromProof(p, mtx.Hash(hi), mtx.Hash(hv))
			if (rerr == nil) != foldOK || (foldOK && H(*got) != fold) {
				t.Fatalf("%s: root from proof %v, %v; by definition %x, ok=%v", kind, got, rerr, fold, foldOK)
			}
			if ok {
				e, present := at.s[hi]
				if p.Existence && (!present || e.Hv() != hv) {
					t.Fatalf("%s: a proof of existence of an absent pair verifies: %x", kind, enc)
				}
				if !p.Existence && present {
					t.Fatalf("%s: a proof of non-existence of a present index verifies: %x", kind, enc)
				}
			}
			rec.Label("%s: accepted=%v", kind, ok)
			rec.Case(kind != "honest", "%s %d entries depth %d hi %x.. %x", kind, len(at.s), len(ref.Siblings), hi[:4], enc[:2])
		}
	})
}

func drawProof(t *rapid.T) mtx.RefProof {
	n := rapid.IntRange(0, 240).Draw(t, "depth")
	p := mtx.RefProof{Existence: rapid.Bool().Draw(t, "ex")}
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 5).Draw(t, "z") == 0 {
			var s H
			copy(s[:], rapid.SliceOfN(rapid.Byte(), 1, 32).Draw(t, "sib"))
			p.Siblings = append(p.Siblings, s)
		} else {
			p.Siblings = append(p.Siblings, H{})
		}
	}
	if !p.Existence && rapid.Bool().Draw(t, "aux") {
		p.Aux = true
		copy(p.AuxHi[:], rapid.SliceOfN(rapid.Byte(), 0, 32).Draw(t, "ah"))
		copy(p.AuxHv[:], rapid.SliceOfN(rapid.Byte(), 0, 32).Draw(t, "av"))
	}
	return p
}

// TestM05_ProofCodec: encodings of proofs round trip; no byte string makes the
// parser or the verifier panic.
func TestM05_ProofCodec(t *testing.T) {
	rec := vh.NewRec("M05_ProofCodec", "generated proofs of any depth the format can hold, and byte strings made by truncating, extending and editing encodings, or at random; non-trivial: depth of at least 1")
	vh.Check(t, 6000, 200000, func(t *rapid.T) {
		ref := drawProof(t)
		enc := ref.Bytes()
		p, err := merkletree.NewProofFromBytes(enc)
		if err != nil {
			t.Fatalf("an encoded proof of depth %d does not parse: %v", len(ref.Siblings), err)
		}
		if !bytes.Equal(p.Bytes(), enc) {
			t.Fatalf("re-encoding gives %x, want %x", p.Bytes(), enc)
		}
		same := func(p *merkletree.Proof) {
			if p.Existence != ref.Existence || (p.NodeAux != nil) != ref.Aux {
				t.Fatalf("flags do not survive: %x", enc)
			}
			if ref.Aux && (H(*p.NodeAux.HIndex) != ref.AuxHi || H(*p.NodeAux.HValue) != ref.AuxHv) {
				t.Fatalf("the other leaf does not survive: %x", enc)
			}
			sib := p.AllSiblings()
			if len(sib) != len(ref.Siblings) {
				t.Fatalf("depth %d becomes %d", len(ref.Siblings), len(sib))
			}
			for i := range sib {
				if H(*sib[i]) != ref.Siblings[i] {
					t.Fatalf("sibling %d does not survive", i)
				}
			}
		}
		same(p)
		js, err := json.Marshal(p)
		if err != nil {
			t.Fatalf("json: %v", err)
		}
		p2 := &merkletree.Proof{}
		if rapid.Bool().Draw(t, "over another") {
			*p2 = merkletree.Proof{Existence: true, Siblings: []*merkletree.Hash{{1}, {2}}, NodeAux: &merkletree.NodeAux{HIndex: &merkletree.Hash{3}, HValue: &merkletree.Hash{4}}}
		}
		if err := json.Unmarshal(js, p2); err != nil {
			t.Fatalf("json: %v", err)
		}
		same(p2)

		// hostile bytes
		x := append([]byte(nil), enc...)
		refuse := false
		switch rapid.IntRange(0, 4).Draw(t, "hostile") {
		case 0:
			x = x[:rapid.IntRange(0, len(x)-1).Draw(t, "cut")]
			refuse = true
		case 1:
			x = append(x, rapid.SliceOfN(rapid.Byte(), 1, 70).Draw(t, "tail")...)
			refuse = ref.Aux
		case 2:
			x[1] = rapid.Byte().Draw(t, "depth")
		case 3:
			for n := rapid.IntRange(1, 4).Draw(t, "edits"); n > 0; n-- {
				x[rapid.IntRange(0, len(x)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "val")
			}
		case 4:
			x = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "random")
		}
		var q *merkletree.Proof
		hi, hv := mtx.Hash(mtx.Elem(false).Draw(t, "hi")), mtx.Hash(mtx.Elem(false).Draw(t, "hv"))
		msg := vh.Catch(func() {
			q, err = merkletree.NewProofFromBytes(x)
			if err == nil {
				_ = q.String()
				_ = q.AllSiblings()
				_ = q.AllSiblingsCircom(140)
				merkletree.VerifyProof(hi, q, hi, hv)
				q2, err2 := merkletree.NewProofFromBytes(q.Bytes())
				if err2 != nil || !bytes.Equal(q2.Bytes(), q.Bytes()) {
					panic(fmt.Sprintf("an accepted proof does not survive re-encoding: %v", err2))
				}
			}
		})
		if msg != "" {
			t.Fatalf("hostile bytes %x: %s", x, msg)
		}
		if refuse && err == nil {
			t.Fatalf("the proof %x is accepted with other bytes: %x", enc, x)
		}
		jx, _ := json.Marshal(fmt.Sprintf("0x%x", x))
		if rapid.IntRange(0, 3).Draw(t, "jsoncut") == 0 {
			jx = jx[:len(jx)-rapid.IntRange(1, 3).Draw(t, "n")]
		}
		if msg := vh.Catch(func() { _ = json.Unmarshal(jx, &merkletree.Proof{}) }); msg != "" {
			t.Fatalf("hostile JSON %s: %s", jx, msg)
		}
		rec.LabelIf(err == nil, "hostile bytes parsed")
		rec.LabelIf(err != nil, "hostile bytes refused")
		rec.Label("depth %d0s", len(ref.Siblings)/10)
		rec.Case(len(ref.Siblings) > 0, "depth %d %x", len(ref.Siblings), enc[:32])
	})
}

// TestM05_ElementCodec: the encodings of nodes, entries, data, hashes and
// integers are inverse to each other and refuse what they did not produce.
func TestM05_ElementCodec(t *testing.T) {
	rec := vh.NewRec("M05_ElementCodec", "nodes, entries, data and hashes with any bytes through their binary and text encodings, and malformed text and bytes; non-trivial: a malformed input was tried")
	vh.Check(t, 6000, 200000, func(t *rapid.T) {
		var d merkletree.Data
		for i := range d {
			copy(d[i][:], rapid.SliceOfN(rapid.Byte(), 0, 32).Draw(t, "el"))
		}
		e := &merkletree.Entry{Data: d}
		txt, err := e.MarshalText()
		if err != nil {
			t.Fatalf("entry text: %v", err)
		}
		var e2 merkletree.Entry
		if err := e2.UnmarshalText(txt); err != nil || e2.Data != d {
			t.Fatalf("entry text round trip: %v", err)
		}
		dt, err := d.MarshalText()
		if err != nil || !bytes.Equal(dt, txt) {
			t.Fatalf("data text: %v", err)
		}
		var d2 merkletree.Data
		if err := d2.UnmarshalText(dt); err != nil || d2 != d {
			t.Fatalf("data text round trip: %v", err)
		}
		e3, err := merkletree.NewEntryFromBytes(e.Bytes())
		if err != nil || e3.Data != d {
			t.Fatalf("entry bytes round trip: %v", err)
		}
		if c := e.Clone(); c.Data != d {
			t.Fatalf("clone differs")
		}
		js, err := json.Marshal(e)
		if err != nil {
			t.Fatalf("entry json: %v", err)
		}
		var e4 merkletree.Entry
		if err := json.Unmarshal(js, &e4); err != nil || e4.Data != d {
			t.Fatalf("entry json round trip: %v", err)
		}
		// what is read replaces what was there, also when that was in use
		var used merkletree.Entry
		for i := range used.Data {
			used.Data[i][0] = byte(i)
		}
		_, _, _ = used.HiHv()
		if rapid.Bool().Draw(t, "text") {
			err = used.UnmarshalText(txt)
		} else {
			err = json.Unmarshal(js, &used)
		}
		if err != nil || used.Data != d {
			t.Fatalf("reading an entry over another: %v", err)
		}
		uhi, uhv, uerr := used.HiHv()
		fhi, fhv, ferr := (&merkletree.Entry{Data: d}).HiHv()
		if (uerr == nil) != (ferr == nil) || uerr == nil && (*uhi != *fhi || *uhv != *fhv) {
			t.Fatalf("an entry read over another has other hashes: %v %v (%v), want %v %v (%v)", uhi, uhv, uerr, fhi, fhv, ferr)
		}
		// equality is equality of all the elements
		o := d
		o[rapid.IntRange(0, 7).Draw(t, "slot")][rapid.IntRange(0, 31).Draw(t, "byte")] ^= byte(rapid.IntRange(0, 3).Draw(t, "x"))
		if e.Equal(&merkletree.Entry{Data: o}) != (o == d) {
			t.Fatalf("Equal(%x, %x) = %v", d.Bytes(), o.Bytes(), e.Equal(&merkletree.Entry{Data: o}))
		}
		// hashes and integers
		var h merkletree.Hash
		copy(h[:], d[0][:])
		ht, _ := h.MarshalText()
		var h2 merkletree.Hash
		if err := h2.UnmarshalText(ht); err != nil || h2 != h {
			t.Fatalf("hash text round trip: %v", err)
		}
		if g := merkletree.NewHashFromBigInt(h.BigInt()); *g != h {
			t.Fatalf("hash integer round trip: %x -> %x", h, *g)
		}
		if h.BigInt().Cmp(mtx.Int(H(h))) != 0 {
			t.Fatalf("hash %x as an integer is %v", h, h.BigInt())
		}
		// nodes
		var l, r merkletree.Hash
		copy(l[:], d[1][:])
		copy(r[:], d[2][:])
		for _, n := range []*merkletree.Node{merkletree.NewNodeLeaf(e), merkletree.NewNodeMiddle(&l, &r)} {
			v := n.Value()
			m, err := merkletree.NewNodeFromBytes(v)
			if err != nil || m.Type != n.Type || !bytes.Equal(m.Value(), v) {
				t.Fatalf("node round trip: %v", err)
			}
			if n.Type == merkletree.NodeTypeMiddle && (*m.ChildL != l || *m.ChildR != r) {
				t.Fatalf("children do not survive")
			}
			if n.Type == merkletree.NodeTypeLeaf && m.Entry.Data != d {
				t.Fatalf("leaf does not survive")
			}
			cut := rapid.IntRange(0, len(v)-1).Draw(t, "cut")
			if _, err := merkletree.NewNodeFromBytes(v[:cut]); err == nil {
				t.Fatalf("a truncated node parses: %x", v[:cut])
			}
			if _, err := merkletree.NewNodeFromBytes(append(append([]byte{}, v...), 0)); err == nil {
				t.Fatalf("a node with a trailing byte parses")
			}
		}
		// malformed text
		n := rapid.IntRange(0, len(txt)+3).Draw(t, "len")
		bad := make([]byte, n)
		copy(bad, txt)
		for i := len(txt); i < n; i++ {
			bad[i] = '0'
		}
		if n == len(txt) {
			bad[rapid.IntRange(2, n-1).Draw(t, "pos")] = 'g'
		}
		keep := e4.Data
		if n != len(txt)-2 || !bytes.HasPrefix(bad, []byte("0x")) { // hex without prefix is accepted
			if err := new(merkletree.Entry).UnmarshalText(bad); err == nil {
				t.Fatalf("malformed entry text accepted: %s", bad)
			}
			if len(bad) >= 2 {
				hb := bad[:min(len(bad), 66)]
				if !bytes.Equal(hb, ht) && !validHex(hb) {
					if err := new(merkletree.Hash).UnmarshalText(hb); err == nil {
						t.Fatalf("malformed hash text accepted: %s", hb)
					}
				}
			}
		}
		_ = keep
		for _, none := range []string{"", "0x"} {
			if new(merkletree.Hash).UnmarshalText([]byte(none)) == nil || new(merkletree.Entry).UnmarshalText([]byte(none)) == nil || new(merkletree.Data).UnmarshalText([]byte(none)) == nil {
				t.Fatalf("the text %q is accepted", none)
			}
		}
		// what is given out is the caller's
		if k, err := merkletree.NewNodeEmpty().Key(); err != nil || *k != (merkletree.Hash{}) {
			t.Fatalf("the key of an empty node is %v, %v", k, err)
		} else {
			k[3] = 7
			bad := merkletree.HashZero != merkletree.Hash{}
			k[3] = 0
			if bad {
				t.Fatalf("the key of an empty node is the constant itself")
			}
		}
		rb := rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "raw")
		if msg := vh.Catch(func() {
			if nd, err := merkletree.NewNodeFromBytes(rb); err == nil {
				_, _ = nd.Key()
				_ = nd.Value()
				_ = nd.String()
			}
			if _, err := merkletree.NewEntryFromBytes(rb); (err == nil) != (len(rb) == 256) {
				panic("entry length not checked")
			}
		}); msg != "" {
			t.Fatalf("raw bytes %x: %s", rb, msg)
		}
		rec.Case(true, "%x / %d", d.Bytes(), n)
	})
}

func validHex(b []byte) bool {
	b = bytes.TrimPrefix(b, []byte("0x"))
	if len(b) != 64 {
		return false
	}
	for _, c := range b {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}
