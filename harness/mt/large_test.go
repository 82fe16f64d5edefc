package mt

import (
	"bytes"
	"encoding/json"
	"testing"

	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"

	"verifharness/faultdb"
	"verifharness/mtx"
	"verifharness/vh"
)

// forest is a large tree and what it was at some of its roots.
type forest struct {
	b    *faultdb.Box
	mt   *merkletree.MerkleTree
	es   []mtx.Entry
	pos  map[H]int // of the index hashes in es
	hist []past
	out  int // an index that is in none
}

// plant grows a tree of hundreds or thousands of entries, looked at at some
// sizes, which are drawn near the powers of two.
func plant(t *rapid.T, storages []string) *forest {
	f := &forest{b: faultdb.NewBox(rapid.SampledFrom(storages).Draw(t, "storage"), []byte("pfx:")), pos: map[H]int{}}
	sizes := []int{300, 520, 700, 1030, 1500}
	if vh.Thorough() {
		sizes = []int{600, 1500, 2100, 4200, 9000}
	}
	n := rapid.SampledFrom(sizes).Draw(t, "size") + rapid.IntRange(-9, 9).Draw(t, "more")
	first := uint32(rapid.IntRange(0, 1<<20).Draw(t, "first")) * 4096
	at := map[int]bool{n: true, 0: true}
	for i := 0; i < 5; i++ {
		at[rapid.SampledFrom([]int{1, 255, 256, 257, 511, 512, 513, 1024, n - 1, n / 2}).Draw(t, "look at")] = true
	}
	reopen := rapid.SampledFrom([]int{-1, 256, n / 3}).Draw(t, "reopen")
	values := rapid.Bool().Draw(t, "values")
	f.mt = open(t, f.b, 140)
	s := mtx.Set{}
	for i := 0; ; i++ {
		if at[i] {
			f.hist = append(f.hist, past{rootOf(f.mt), s.Clone()})
			if r := s.Root(); r != rootOf(f.mt) {
				t.Fatalf("with %d entries the root is %x, by definition %x", i, rootOf(f.mt), r)
			}
		}
		if i == n {
			break
		}
		if i == reopen {
			f.b.Reopen()
			f.mt = open(t, f.b, 140)
		}
		e := mtx.SeedEntry(first + uint32(i))
		if values {
			e[4][0], e[4][1] = byte(i), byte(i>>8)
		}
		if err := f.mt.AddEntry(e.E()); err != nil {
			t.Fatalf("adding entry %d: %v", i, err)
		}
		f.es = append(f.es, e)
		f.pos[e.Hi()] = i
		s[e.Hi()] = e
	}
	f.out = int(first) + n
	return f
}

// hi draws the index hash of an entry, or one that never was in.
func (f *forest) hi(t *rapid.T) H {
	i := rapid.IntRange(0, len(f.es)+len(f.es)/4).Draw(t, "which")
	if i < len(f.es) {
		return f.es[i].Hi()
	}
	return mtx.SeedEntry(uint32(f.out + i)).Hi()
}

// TestM01_Large: also a large tree is a write-once map.
func TestM01_Large(t *testing.T) {
	rec := vh.NewRec("M01_Large", "trees of 300 to 1500 entries (to 9000 in the thorough tier), whose roots at sizes near powers of two are compared with the definition, that are looked up, walked, asked for proofs at past roots, opened again, and given repeated entries; non-trivial: all")
	vh.Check(t, 16, 64, func(t *rapid.T) {
		f := plant(t, faultdb.Kinds)
		defer f.b.Close()
		if rapid.Bool().Draw(t, "reopen at the end") {
			f.b.Reopen()
			f.mt = open(t, f.b, 140)
		}
		last := f.hist[len(f.hist)-1]
		if rootOf(f.mt) != last.root {
			t.Fatalf("the root is %x, should be %x", rootOf(f.mt), last.root)
		}
		for n := 0; n < 60; n++ {
			checkLookup(t, f.mt, last.s, f.hi(t))
		}
		for n := 0; n < 20; n++ {
			e := f.es[rapid.IntRange(0, len(f.es)-1).Draw(t, "again")]
			e[5] = H{1}
			if err := f.mt.AddEntry(e.E()); err != merkletree.ErrEntryIndexAlreadyExists {
				t.Fatalf("an entry with a present index: %v", err)
			}
		}
		if rootOf(f.mt) != last.root {
			t.Fatalf("refused entries changed the root")
		}
		for _, at := range f.hist {
			got := mtx.Set{}
			leaves, mids := 0, 0
			if err := f.mt.Walk(mtx.Hash(at.root), func(n *merkletree.Node) {
				switch n.Type {
				case merkletree.NodeTypeLeaf:
					leaves++
					e := mtx.FromE(&n.Entry.Data)
					got[e.Hi()] = e
				case merkletree.NodeTypeMiddle:
					mids++
				}
			}); err != nil {
				t.Fatalf("walking: %v", err)
			}
			if leaves != len(at.s) || !got.Equal(at.s) {
				t.Fatalf("a walk at the root of %d entries finds %d leaves, %d different", len(at.s), leaves, len(got))
			}
			if mids < leaves-1 {
				t.Fatalf("a walk finds %d leaves and %d nodes above", leaves, mids)
			}
			for n := 0; n < 20; n++ {
				hi := f.hi(t)
				e, in := at.s[hi]
				if !in {
					continue
				}
				if err := f.mt.EntryExists(e.E(), mtx.Hash(at.root)); err != nil {
					t.Fatalf("an entry isn't found at the root of %d: %v", len(at.s), err)
				}
				if i := f.pos[hi]; i != len(f.es)-1 {
					// the one after the last one of then
					if next := len(at.s); next < len(f.es) {
						if err := f.mt.EntryExists(f.es[next].E(), mtx.Hash(at.root)); err == nil {
							t.Fatalf("entry %d is found at the root of %d", next, len(at.s))
						}
					}
				}
			}
			rec.Label("size %d", len(at.s)/256*256)
		}
		rec.Case(true, "%s %d from %x", f.b.Kind, len(f.es), f.es[0][0])
	})
}

// TestM03_Large: entries of large trees have proofs, too.
func TestM03_Large(t *testing.T) {
	rec := vh.NewRec("M03_Large", "proofs by definition of present, later and absent entries of trees of 300 to 1500 entries (to 9000 in the thorough tier), at roots of sizes near powers of two; non-trivial: all")
	vh.Check(t, 16, 64, func(t *rapid.T) {
		f := plant(t, []string{"mem", "level"})
		defer f.b.Close()
		for _, at := range f.hist {
			var rootArg *merkletree.Hash
			if at.root != rootOf(f.mt) || rapid.Bool().Draw(t, "name the root") {
				rootArg = mtx.Hash(at.root)
			}
			for n := 0; n < 12; n++ {
				hi := f.hi(t)
				p, err := f.mt.GenerateProof(mtx.Hash(hi), rootArg)
				if err != nil {
					t.Fatalf("a proof at the root of %d entries: %v", len(at.s), err)
				}
				ref := checkProof(t, p, at.s, hi, at.root, H{2})
				if enc := p.Bytes(); !bytes.Equal(enc, ref.Bytes()) {
					t.Fatalf("the encoding of the proof is %x, by definition %x", enc, ref.Bytes())
				}
				p2, err := merkletree.NewProofFromBytes(p.Bytes())
				if err != nil {
					t.Fatalf("parsing an encoded proof: %v", err)
				}
				checkProof(t, p2, at.s, hi, at.root, H{2})
				rec.Label("depth %d", len(ref.Siblings))
				rec.Case(true, "%x at %x", hi, at.root)
			}
		}
	})
}

// TestM06_Large: large trees are restored from their dumps.
func TestM06_Large(t *testing.T) {
	rec := vh.NewRec("M06_Large", "trees of 300 to 1500 entries (to 9000 in the thorough tier) dumped at roots of sizes near powers of two and imported, as nodes and as claims; non-trivial: all")
	vh.Check(t, 16, 64, func(t *rapid.T) {
		f := plant(t, []string{"mem", "level"})
		defer f.b.Close()
		at := f.hist[rapid.IntRange(0, len(f.hist)-1).Draw(t, "when")]
		b2 := faultdb.NewBox(rapid.SampledFrom(faultdb.Kinds).Draw(t, "into"), []byte("x"))
		defer b2.Close()
		im := open(t, b2, 140)
		way := rapid.SampledFrom([]string{"nodes", "claims", "writer"}).Draw(t, "way")
		var buf bytes.Buffer
		switch way {
		case "nodes":
			if err := f.mt.DumpTree(&buf, mtx.Hash(at.root)); err != nil {
				t.Fatalf("dumping: %v", err)
			}
			if err := im.ImportTree(&buf); err != nil {
				t.Fatalf("importing a dump of %d entries: %v", len(at.s), err)
			}
		case "claims":
			cs, err := f.mt.DumpClaims(mtx.Hash(at.root))
			if err != nil {
				t.Fatalf("dumping claims: %v", err)
			}
			if err := im.ImportDumpedClaims(cs); err != nil {
				t.Fatalf("importing %d claims: %v", len(at.s), err)
			}
		case "writer":
			if err := f.mt.DumpClaimsIoWriter(&buf, mtx.Hash(at.root)); err != nil {
				t.Fatalf("dumping claims: %v", err)
			}
			var cs []string
			if err := json.Unmarshal(buf.Bytes(), &cs); err != nil {
				t.Fatalf("the dump of %d claims is no JSON: %v", len(at.s), err)
			}
			if err := im.ImportDumpedClaims(cs); err != nil {
				t.Fatalf("importing %d claims: %v", len(at.s), err)
			}
		}
		if rapid.Bool().Draw(t, "reopen the other") {
			b2.Reopen()
			im = open(t, b2, 140)
		}
		if rootOf(im) != at.root {
			t.Fatalf("the imported tree (%s) of %d has the root %x, not %x", way, len(at.s), rootOf(im), at.root)
		}
		for n := 0; n < 40; n++ {
			checkLookup(t, im, at.s, f.hi(t))
		}
		rec.Label("%s", way)
		rec.Case(true, "%s %d of %d from %x", way, len(at.s), len(f.es), f.es[0][0])
	})
}
