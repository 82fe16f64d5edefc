package mt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"

	"verifharness/faultdb"
	"verifharness/mtx"
	"verifharness/vh"
)

// TestM06_DumpImport: a dump of any root restores the tree of that root.
func TestM06_DumpImport(t *testing.T) {
	rec := vh.NewRec("M06_DumpImport", "trees grown from colliding entries, dumped at the current or a past root as nodes or as claims, restored into a storage that is new or has another tree, compared (root, entries, proofs), reopened, grown further; truncated dumps have to be refused without effect, damaged ones refused or true to their root; non-trivial: at least 2 entries")
	vh.Check(t, 1500, 40000, func(t *rapid.T) {
		b := drawBox(t)
		defer b.Close()
		mt := open(t, b, 140)
		es := mtx.Cluster(0, 16).Draw(t, "entries")
		hist := grow(t, mt, es, 140)
		at := hist[len(hist)-1]
		var rootArg *merkletree.Hash
		if rapid.Bool().Draw(t, "past") {
			at = hist[rapid.IntRange(0, len(hist)-1).Draw(t, "when")]
			rootArg = mtx.Hash(at.root)
		}
		b2 := drawBox(t)
		defer b2.Close()
		im := open(t, b2, 140)
		way := rapid.SampledFrom([]string{"tree", "claims", "json"}).Draw(t, "way")
		var dump bytes.Buffer
		base := mtx.Set{}
		switch way {
		case "tree":
			if err := mt.DumpTree(&dump, rootArg); err != nil {
				t.Fatalf("dumping the tree: %v", err)
			}
			full := append([]byte(nil), dump.Bytes()...)
			// another tree, maybe with some of the same entries, may be
			// there before: the import replaces it
			if rapid.Bool().Draw(t, "occupied") {
				x := mtx.SeedEntry(uint32(900000 + rapid.IntRange(0, 9).Draw(t, "x")))
				add(t, im, base, x, 140, false)
				for _, e := range es {
					if _, ok := base[e.Hi()]; !ok && rapid.Bool().Draw(t, "too") {
						add(t, im, base, e, 140, false)
					}
				}
			}
			// a cut dump must be refused and must not change anything
			if rapid.Bool().Draw(t, "trycut") {
				cut := rapid.IntRange(0, len(full)-1).Draw(t, "cut")
				if rapid.Bool().Draw(t, "nearend") {
					cut = len(full) - rapid.IntRange(1, min(60, len(full))).Draw(t, "fromend")
				}
				before := rootOf(im)
				if err := im.ImportTree(bytes.NewReader(full[:cut])); err == nil {
					t.Fatalf("a dump of %d bytes cut at %d is accepted", len(full), cut)
				}
				if rootOf(im) != before {
					t.Fatalf("a refused import changed the root")
				}
				checkEnum(t, im, nil, base)
				b2.Reopen()
				im = open(t, b2, 140)
				if rootOf(im) != before {
					t.Fatalf("after a refused import the stored root is %x, want %x", rootOf(im), before)
				}
				checkEnum(t, im, nil, base)
				rec.Label("cut dump")
			}
			// damaged dumps must not crash
			if rapid.IntRange(0, 2).Draw(t, "damage") == 0 {
				x := append([]byte(nil), full...)
				if rapid.Bool().Draw(t, "drop") {
					// a record may be missing, or be there twice
					rs := records(x)
					i := rapid.IntRange(0, len(rs)-1).Draw(t, "record")
					if rapid.Bool().Draw(t, "twice") {
						rs = append(rs, rs[i])
					} else {
						rs = append(rs[:i:i], rs[i+1:]...)
					}
					if x = bytes.Join(rs, nil); len(x) == 0 {
						x = []byte{0}
					}
				}
				for n := rapid.IntRange(0, 3).Draw(t, "edits"); n > 0; n-- {
					x[rapid.IntRange(0, len(x)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "val")
				}
				junk := faultdb.NewBox("mem", nil)
				jm := open(t, junk, 140)
				hi := mtx.CraftedHi(at.s).Draw(t, "askdamaged")
				hv := mtx.Elem(false).Draw(t, "hvdamaged")
				var p *merkletree.Proof
				var errI, errP, errW error
				got := mtx.Set{}
				if msg := vh.Catch(func() {
					if errI = jm.ImportTree(bytes.NewReader(x)); errI != nil {
						return
					}
					p, errP = jm.GenerateProof(mtx.Hash(hi), nil)
					errW = jm.Walk(nil, func(n *merkletree.Node) {
						if n.Type == merkletree.NodeTypeLeaf {
							e := mtx.FromE(&n.Entry.Data)
							got[e.Hi()] = e
						}
					})
				}); msg != "" {
					t.Fatalf("importing a damaged dump panics: %s", msg)
				}
				if errI == nil {
					// what is accepted and found belongs to the root
					rec.Label("damaged dump accepted")
					if errW == nil && got.Root() != rootOf(jm) {
						t.Fatalf("a damaged dump is accepted: root %x, entries %v", rootOf(jm), got)
					}
					if errP == nil && rootOf(jm) == at.root {
						checkProof(t, p, at.s, hi, at.root, hv)
					}
				}
				rec.Label("damaged dump")
			}
			if err := im.ImportTree(bytes.NewReader(full)); err != nil {
				t.Fatalf("importing a dump: %v", err)
			}
		case "claims":
			cs, err := mt.DumpClaims(rootArg)
			if err != nil {
				t.Fatalf("dumping the claims: %v", err)
			}
			if rapid.Bool().Draw(t, "noprefix") {
				for i := range cs {
					cs[i] = cs[i][2:]
				}
			}
			if len(cs) > 1 && rapid.Bool().Draw(t, "reverse") {
				for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
					cs[i], cs[j] = cs[j], cs[i]
				}
			}
			if err := im.ImportDumpedClaims(cs); err != nil {
				t.Fatalf("importing the claims: %v", err)
			}
		case "json":
			if err := mt.DumpClaimsIoWriter(&dump, rootArg); err != nil {
				t.Fatalf("writing the claims: %v", err)
			}
			var cs []string
			if err := json.Unmarshal(dump.Bytes(), &cs); err != nil {
				t.Fatalf("the written claims are not JSON: %v\n%s", err, dump.Bytes())
			}
			if err := im.ImportDumpedClaims(cs); err != nil {
				t.Fatalf("importing the claims: %v", err)
			}
		}
		s := at.s.Clone()
		for round := 0; round < 2; round++ {
			if rootOf(im) != at.root {
				t.Fatalf("%s, round %d: the restored root is %x, want %x", way, round, rootOf(im), at.root)
			}
			checkEnum(t, im, nil, s)
			hi := mtx.CraftedHi(s).Draw(t, "hi")
			p, err := im.GenerateProof(mtx.Hash(hi), nil)
			if err != nil {
				t.Fatalf("no proof from the restored tree: %v", err)
			}
			checkProof(t, p, s, hi, at.root, mtx.Elem(false).Draw(t, "hv"))
			b2.Reopen()
			im = open(t, b2, 140)
		}
		// the restored tree is a tree: it can grow
		more := []mtx.Entry{mtx.SeedEntry(uint32(800000 + rapid.IntRange(0, 99).Draw(t, "grow")))}
		for _, e := range es {
			if _, ok := s[e.Hi()]; !ok && len(more) < 4 {
				more = append(more, e) // it may have been there before the import
			}
		}
		if rapid.Bool().Draw(t, "other order") {
			more[0], more[len(more)-1] = more[len(more)-1], more[0]
		}
		for _, e := range more {
			if _, ok := s[e.Hi()]; ok {
				continue
			}
			add(t, im, s, e, 140, false)
			if rootOf(im) != s.Root() {
				t.Fatalf("growing the restored tree gives %x, want %x", rootOf(im), s.Root())
			}
		}
		checkEnum(t, im, nil, s)
		rec.Label("%s", way)
		rec.LabelIf(rootArg != nil, "past root")
		rec.Case(len(at.s) >= 2, "%s %d entries root %x..", way, len(at.s), at.root[:6])
	})
}

// records cuts a dump into its records.
func records(d []byte) (rs [][]byte) {
	for len(d) > 0 {
		n := 3 + int(d[0]) + int(d[1]) + int(d[2])<<8
		if len(d) < n {
			return append(rs, d) // some other format: one record
		}
		rs = append(rs, d[:n:n])
		d = d[n:]
	}
	return rs
}

// TestM06_BadClaims: claim lists that no dump produces are refused.
func TestM06_BadClaims(t *testing.T) {
	rec := vh.NewRec("M06_BadClaims", "claim lists with a claim of the wrong length, a foreign character, an element outside the field or a repeated index; non-trivial: all")
	vh.Check(t, 800, 20000, func(t *rapid.T) {
		es := mtx.Cluster(1, 6).Draw(t, "entries")
		b := faultdb.NewBox("mem", nil)
		mt := open(t, b, 140)
		s := mtx.Set{}
		var cs []string
		i := rapid.IntRange(0, len(es)).Draw(t, "badat")
		var bad string
		e := mtx.Entries().Draw(t, "bad")
		txt := fmt.Sprintf("0x%x", e.E().Bytes())
		switch kind := rapid.SampledFrom([]string{"short", "long", "char", "field", "odd"}).Draw(t, "kind"); kind {
		case "short":
			bad = txt[:len(txt)-2*rapid.IntRange(1, 200).Draw(t, "n")]
		case "odd":
			bad = txt[:len(txt)-1]
		case "long":
			bad = txt + "00"
		case "char":
			x := []byte(txt)
			x[rapid.IntRange(2, len(x)-1).Draw(t, "pos")] = 'x'
			bad = string(x)
		case "field":
			e[rapid.IntRange(0, 7).Draw(t, "slot")] = mtx.Elem(true).Draw(t, "el")
			bad = fmt.Sprintf("0x%x", e.E().Bytes())
		}
		seen := map[H]bool{}
		for n, x := range es {
			if n == i {
				cs = append(cs, bad)
			}
			if seen[x.Hi()] {
				continue
			}
			seen[x.Hi()] = true
			if n < i {
				s[x.Hi()] = x
			}
			cs = append(cs, fmt.Sprintf("0x%x", x.E().Bytes()))
		}
		if i == len(es) {
			cs = append(cs, bad)
		}
		var err error
		if msg := vh.Catch(func() { err = mt.ImportDumpedClaims(cs) }); msg != "" {
			t.Fatalf("a bad claim list panics: %s", msg)
		}
		if err == nil {
			t.Fatalf("a claim list with %q is accepted", bad)
		}
		if rootOf(mt) != s.Root() {
			t.Fatalf("after the refusal the tree does not hold exactly the claims before the bad one")
		}
		rec.Case(true, "%d/%d %s", i, len(es), bad)
	})
}

// TestM06_Onto: claims are imported into a tree that has some already.
func TestM06_Onto(t *testing.T) {
	rec := vh.NewRec("M06_Onto", "claims dumped from one tree are imported into a tree with other claims, some of them the same or with the same index; without an error all are there, whatever happens the earlier ones stay; non-trivial: both trees share an index")
	vh.Check(t, 1200, 30000, func(t *rapid.T) {
		es := mtx.Cluster(1, 12).Draw(t, "entries")
		a, b := faultdb.NewBox("mem", nil), faultdb.NewBox("mem", nil)
		from, to := open(t, a, 140), open(t, b, 140)
		fs, ts := mtx.Set{}, mtx.Set{}
		shared, conflict := 0, 0
		for _, e := range es {
			where := rapid.SampledFrom([]string{"from", "from", "to", "same", "other"}).Draw(t, "where")
			if where != "to" {
				if _, ok := fs[e.Hi()]; ok {
					continue
				}
				add(t, from, fs, e, 140, false)
			}
			if where != "from" {
				x := e
				if where == "other" {
					x[5][rapid.IntRange(0, 30).Draw(t, "byte")] ^= 1
				}
				if _, ok := ts[x.Hi()]; !ok {
					add(t, to, ts, x, 140, false)
				}
			}
		}
		for hi, e := range fs {
			if x, ok := ts[hi]; ok {
				shared++
				if x != e {
					conflict++
				}
			}
		}
		cs, err := from.DumpClaims(nil)
		if err != nil {
			t.Fatalf("dumping the claims: %v", err)
		}
		var imp error
		if msg := vh.Catch(func() { imp = to.ImportDumpedClaims(cs) }); msg != "" {
			t.Fatalf("importing claims panics: %s", msg)
		}
		if conflict > 0 && imp == nil {
			t.Fatalf("claims of the same index as those of the tree, but others, are accepted: %v onto %v", fs, ts)
		}
		if shared == 0 && imp != nil {
			t.Fatalf("importing the claims: %v", imp)
		}
		// every claim there is one of the two trees, the earlier ones first
		got := mtx.Set{}
		if err := to.Walk(nil, func(n *merkletree.Node) {
			if n.Type == merkletree.NodeTypeLeaf {
				e := mtx.FromE(&n.Entry.Data)
				got[e.Hi()] = e
			}
		}); err != nil {
			t.Fatalf("walking: %v", err)
		}
		for hi, e := range ts {
			if x, ok := got[hi]; !ok || x != e {
				t.Fatalf("a claim was lost by the import (%v): %v", imp, e)
			}
		}
		for hi, e := range got {
			x, ok := ts[hi]
			if !ok {
				x, ok = fs[hi]
			}
			if !ok || x != e {
				t.Fatalf("the import made up %v", e)
			}
		}
		if imp == nil {
			for hi, e := range fs {
				if x, ok := got[hi]; !ok || x != e {
					t.Fatalf("the import left out %v", e)
				}
			}
		}
		if rootOf(to) != got.Root() {
			t.Fatalf("the root %x is not that of the claims: %x", rootOf(to), got.Root())
		}
		rec.LabelIf(conflict > 0, "conflict")
		rec.Case(shared > 0, "%d onto %d, %d shared, %d conflicting", len(fs), len(ts), shared, conflict)
	})
}

// TestM08_Snapshot: a snapshot shows one root forever and writes nothing.
func TestM08_Snapshot(t *testing.T) {
	rec := vh.NewRec("M08_Snapshot", "snapshots of generated past roots, read while the tree grows, with every kind of write tried on them; non-trivial: the tree grew after the snapshot")
	vh.Check(t, 1200, 40000, func(t *rapid.T) {
		b := drawBox(t)
		defer b.Close()
		levels := rapid.SampledFrom([]int{140, 140, 48, 10, 6}).Draw(t, "levels")
		mt := open(t, b, levels)
		es := mtx.Cluster(1, 10).Draw(t, "entries")
		hist := grow(t, mt, es, levels)
		s := hist[len(hist)-1].s.Clone()
		at := hist[rapid.IntRange(0, len(hist)-1).Draw(t, "when")]
		rk := mtx.Hash(at.root)
		sn, err := mt.Snapshot(rk)
		if err != nil {
			t.Fatalf("snapshot of a root of the tree: %v", err)
		}
		if sn.MaxLevels() != levels || mt.MaxLevels() != levels {
			t.Fatalf("a tree of %d levels says %d, its snapshot %d", levels, mt.MaxLevels(), sn.MaxLevels())
		}
		if rapid.Bool().Draw(t, "reuse the hash") {
			// the hash belongs to the caller, and so do those given out
			rk[0] ^= 0xff
			rk = sn.RootKey()
			rk[1] ^= 0xff
			mt.RootKey()[2] ^= 0xff
			rk = mtx.Hash(at.root)
			rec.Label("hash reused")
		}
		// unknown roots have no snapshot
		u := at.root
		u[rapid.IntRange(0, 31).Draw(t, "byte")] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
		if _, err := mt.Snapshot(mtx.Hash(u)); err == nil && u != (H{}) {
			t.Fatalf("a snapshot of a root the tree never had: %x", u)
		}
		more := mtx.Cluster(0, 8).Draw(t, "more")
		grown, tried := 0, 0
		check := func() {
			if rootOf(sn) != at.root {
				t.Fatalf("the root of the snapshot is %x, want %x", rootOf(sn), at.root)
			}
			checkEnum(t, sn, nil, at.s)
			hi := mtx.CraftedHi(s).Draw(t, "hi")
			checkLookup(t, sn, at.s, hi)
			p, err := sn.GenerateProof(mtx.Hash(hi), nil)
			if err != nil {
				t.Fatalf("proof from a snapshot: %v", err)
			}
			checkProof(t, p, at.s, hi, at.root, mtx.Elem(false).Draw(t, "hv"))
			if rootOf(mt) != s.Root() {
				t.Fatalf("the root of the tree is %x, want %x", rootOf(mt), s.Root())
			}
		}
		check()
		for _, e := range more {
			if add(t, mt, s, e, levels, false) {
				grown++
			}
			w := mtx.Entries().Draw(t, "write")
			if !w.InField() {
				continue
			}
			var err error
			before := rootOf(mt)
			switch rapid.IntRange(0, 4).Draw(t, "writekind") {
			case 0:
				err = sn.AddEntry(w.E())
			case 1:
				err = sn.AddClaim(entrier{w})
			case 2:
				err = sn.ImportDumpedClaims([]string{fmt.Sprintf("0x%x", w.E().Bytes())})
			case 3:
				var d bytes.Buffer
				o := hist[rapid.IntRange(0, len(hist)-1).Draw(t, "o")]
				if e := mt.DumpTree(&d, mtx.Hash(o.root)); e != nil {
					t.Fatalf("dump: %v", e)
				}
				err = sn.ImportTree(&d)
			case 4:
				// a snapshot of a snapshot is read-only, too
				ss, e := sn.Snapshot(rk)
				if e != nil {
					t.Fatalf("snapshot of a snapshot: %v", e)
				}
				err = ss.AddEntry(w.E())
			}
			tried++
			if err == nil {
				t.Fatalf("a write to a snapshot succeeded")
			}
			if rootOf(mt) != before {
				t.Fatalf("a write to a snapshot changed the tree")
			}
			check()
			b.Reopen()
			re := open(t, b, levels)
			if rootOf(re) != s.Root() {
				t.Fatalf("after a write to a snapshot the stored root is %x, want %x", rootOf(re), s.Root())
			}
			if b.Kind == "level" || b.Kind == "levelprefix" {
				mt = re
				if sn, err = mt.Snapshot(rk); err != nil {
					t.Fatalf("snapshot after a reopening: %v", err)
				}
			}
		}
		rec.LabelIf(grown > 0, "tree grew")
		rec.LabelIf(tried > 0, "writes tried")
		rec.Case(grown > 0, "L%d %d of %d entries, then %v", levels, len(at.s), len(es), more)
	})
}
