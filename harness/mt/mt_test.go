package mt

import (
	"errors"
	"fmt"
	"testing"

	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"

	"verifharness/faultdb"
	"verifharness/mtx"
	"verifharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

type H = mtx.H

// entrier hands an entry to AddClaim.
type entrier struct{ e mtx.Entry }

func (e entrier) Entry() *merkletree.Entry { return e.e.E() }

// drawBox draws a storage, with unrelated data next to the tree when the
// storage is shared.
func drawBox(t *rapid.T) *faultdb.Box {
	b := faultdb.NewBox(rapid.SampledFrom(faultdb.Kinds).Draw(t, "storage"), []byte("pfx:"))
	if rapid.Bool().Draw(t, "neighbour") {
		// another tree in the same database, under a neighbouring prefix
		if b.Storage() != b.Base() {
			n, err := merkletree.NewMerkleTree(b.Base().WithPrefix([]byte("pfx;")), 140)
			vh.Must(err)
			_ = n.AddEntry(mtx.SeedEntry(77777).E())
			n, err = merkletree.NewMerkleTree(b.Base(), 140)
			vh.Must(err)
			_ = n.AddEntry(mtx.SeedEntry(77778).E())
		}
	}
	return b
}

func open(t *rapid.T, b *faultdb.Box, levels int) *merkletree.MerkleTree {
	mt, err := merkletree.NewMerkleTree(b.Storage(), levels)
	if err != nil {
		t.Fatalf("opening a tree failed: %v", err)
	}
	return mt
}

// add adds the entry and checks the outcome against the set; it returns
// whether the entry went in.
func add(t *rapid.T, mt *merkletree.MerkleTree, s mtx.Set, e mtx.Entry, levels int, viaClaim bool) bool {
	var err error
	if viaClaim {
		err = mt.AddClaim(entrier{e})
	} else {
		err = mt.AddEntry(e.E())
	}
	if !e.InField() {
		if err == nil {
			t.Fatalf("an entry with an element outside the field was accepted: %v", e)
		}
		return false
	}
	hi := e.Hi()
	if _, ok := s[hi]; ok {
		if !errors.Is(err, merkletree.ErrEntryIndexAlreadyExists) {
			t.Fatalf("adding a second entry with a present index: got %v, want %v", err, merkletree.ErrEntryIndexAlreadyExists)
		}
		return false
	}
	if !s.Fits(hi, levels) {
		if err == nil {
			t.Fatalf("an entry that needs depth %d was accepted by a tree of %d levels", s.Depth(hi), levels)
		}
		return false
	}
	if err != nil {
		t.Fatalf("adding a new entry %v (depth %d, %d levels) failed: %v", e, s.Depth(hi), levels, err)
	}
	s[hi] = e
	return true
}

// checkLookup compares one index hash with the set.
func checkLookup(t *rapid.T, mt *merkletree.MerkleTree, s mtx.Set, h H) {
	d, err := mt.GetDataByIndex(mtx.Hash(h))
	want, ok := s[h]
	if ok {
		if err != nil {
			t.Fatalf("an added entry %v is not found: %v", want, err)
		}
		if mtx.FromE(d) != want {
			t.Fatalf("looked up %v, got %v", want, mtx.FromE(d))
		}
	} else if !errors.Is(err, merkletree.ErrEntryIndexNotFound) {
		t.Fatalf("looking up an absent index: got data=%v err=%v, want %v", d, err, merkletree.ErrEntryIndexNotFound)
	}
}

// checkEnum compares the enumeration of the tree under root with the set.
func checkEnum(t *rapid.T, mt *merkletree.MerkleTree, root *merkletree.Hash, s mtx.Set) {
	got := map[mtx.Entry]int{}
	n := 0
	err := mt.Walk(root, func(nd *merkletree.Node) {
		if nd.Type == merkletree.NodeTypeLeaf {
			got[mtx.FromE(&nd.Entry.Data)]++
			n++
		}
	})
	if err != nil {
		t.Fatalf("walking the tree failed: %v", err)
	}
	if n != len(s) {
		t.Fatalf("walk visits %d leaves, want %d", n, len(s))
	}
	dc, err := mt.DumpClaims(root)
	if err != nil {
		t.Fatalf("dumping claims failed: %v", err)
	}
	if len(dc) != len(s) {
		t.Fatalf("DumpClaims lists %d claims, want %d", len(dc), len(s))
	}
	for _, e := range s {
		if got[e] != 1 {
			t.Fatalf("walk visits %v %d times", e, got[e])
		}
		x := fmt.Sprintf("0x%x", e.E().Bytes())
		found := 0
		for _, c := range dc {
			if c == x {
				found++
			}
		}
		if found != 1 {
			t.Fatalf("DumpClaims lists %v %d times", e, found)
		}
	}
}

func rootOf(mt *merkletree.MerkleTree) H { return H(*mt.RootKey()) }

// TestM01_MapModel: the tree is a write-once map.
func TestM01_MapModel(t *testing.T) {
	rec := vh.NewRec("M01_MapModel", "histories of adds, lookups, reopenings and reads at past roots against a map; non-trivial: at least one accepted add followed by a refused one, and a read at a past root or after a reopening")
	vh.Check(t, 3000, 60000, func(t *rapid.T) {
		b := drawBox(t)
		defer b.Close()
		levels := mtx.Levels().Draw(t, "levels")
		mt := open(t, b, levels)
		s := mtx.Set{}
		type past struct {
			root H
			s    mtx.Set
		}
		hist := []past{{rootOf(mt), mtx.Set{}}}
		var refused, okAdds, reopens, histReads int
		descr := fmt.Sprintf("L%d/%s:", levels, b.Kind)
		doAdd := func(e mtx.Entry) {
			if add(t, mt, s, e, levels, rapid.Bool().Draw(t, "viaClaim")) {
				okAdds++
				hist = append(hist, past{rootOf(mt), s.Clone()})
				descr += "+"
			} else {
				if okAdds > 0 {
					refused++
				}
				descr += "!"
			}
			descr += e.String()
		}
		var known []mtx.Entry
		t.Repeat(map[string]func(*rapid.T){
			"add": func(t *rapid.T) {
				e := mtx.Entries().Draw(t, "entry")
				known = append(known, e)
				doAdd(e)
			},
			"addPair": func(t *rapid.T) {
				p := mtx.PrefixPairs[rapid.IntRange(0, len(mtx.PrefixPairs)-1).Draw(t, "pair")]
				for _, x := range []uint32{p.A, p.B} {
					known = append(known, mtx.SeedEntry(x))
					doAdd(mtx.SeedEntry(x))
				}
			},
			"addAgain": func(t *rapid.T) {
				if len(known) == 0 {
					t.Skip("none")
				}
				e := known[rapid.IntRange(0, len(known)-1).Draw(t, "i")]
				if rapid.Bool().Draw(t, "othervalue") {
					e[4+rapid.IntRange(0, 3).Draw(t, "slot")] = mtx.Elem(false).Draw(t, "v")
				}
				doAdd(e)
			},
			"addBad": func(t *rapid.T) {
				e := mtx.Entries().Draw(t, "entry")
				e[rapid.IntRange(0, 7).Draw(t, "slot")] = mtx.Elem(true).Draw(t, "bad")
				doAdd(e)
			},
			"reopen": func(t *rapid.T) {
				b.Reopen()
				mt = open(t, b, levels)
				reopens++
				descr += "R"
			},
			"lookup": func(t *rapid.T) {
				checkLookup(t, mt, s, mtx.CraftedHi(s).Draw(t, "hi"))
			},
			"entryExists": func(t *rapid.T) {
				if len(known) == 0 {
					t.Skip("none")
				}
				e := known[rapid.IntRange(0, len(known)-1).Draw(t, "i")]
				if rapid.Bool().Draw(t, "othervalue") {
					e[4+rapid.IntRange(0, 3).Draw(t, "slot")] = mtx.Elem(false).Draw(t, "v")
				}
				if !e.InField() {
					return
				}
				set := s
				var root *merkletree.Hash
				if rapid.Bool().Draw(t, "past") {
					p := hist[rapid.IntRange(0, len(hist)-1).Draw(t, "when")]
					set, root = p.s, mtx.Hash(p.root)
					histReads++
				}
				err := mt.EntryExists(e.E(), root)
				got, ok := set[e.Hi()]
				if want := ok && got == e; want != (err == nil) {
					t.Fatalf("EntryExists(%v) = %v, while the tree holds (%v) %v", e, err, ok, got)
				}
			},
			"pastRead": func(t *rapid.T) {
				p := hist[rapid.IntRange(0, len(hist)-1).Draw(t, "when")]
				sn, err := mt.Snapshot(mtx.Hash(p.root))
				if err != nil {
					t.Fatalf("snapshot of a past root failed: %v", err)
				}
				checkLookup(t, sn, p.s, mtx.CraftedHi(s).Draw(t, "hi"))
				checkEnum(t, mt, mtx.Hash(p.root), p.s)
				histReads++
			},
			"": func(t *rapid.T) {
				if len(s) > 0 {
					ks := s.Keys()
					checkLookup(t, mt, s, ks[rapid.IntRange(0, len(ks)-1).Draw(t, "k")])
				}
			},
		})
		for _, k := range s.Keys() {
			checkLookup(t, mt, s, k)
		}
		for _, e := range known {
			if e.InField() {
				checkLookup(t, mt, s, e.Hi())
			}
		}
		checkEnum(t, mt, nil, s)
		// what was stored is what a fresh process finds
		b.Reopen()
		mt = open(t, b, levels)
		for _, k := range s.Keys() {
			checkLookup(t, mt, s, k)
		}
		rec.LabelIf(refused > 0, "with a refused add")
		rec.LabelIf(reopens > 0, "with a reopening")
		rec.LabelIf(histReads > 0, "with a past read")
		rec.Label("storage %s", b.Kind)
		d := 0
		for _, k := range s.Keys() {
			if x := s.Depth(k); x > d {
				d = x
			}
		}
		rec.Label("deepest leaf %d0s", d/10)
		rec.Case(refused > 0 && (reopens > 0 || histReads > 0), "%s", descr)
	})
}
