package mt

import (
	"bytes"
	"fmt"
	"sync"
	"testing"

	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"

	"verifharness/faultdb"
	"verifharness/mtx"
	"verifharness/vh"
)

// TestM09_Concurrent: adders and readers share a tree.
func TestM09_Concurrent(t *testing.T) {
	rec := vh.NewRec("M09_Concurrent", "goroutines that add overlapping lists of entries while others look up, prove, snapshot, enumerate and dump, under the race detector; every answer has to fit a set between those known before and after the call, and the end result is the union; non-trivial: at least two adders with at least two entries in all")
	vh.Check(t, 320, 6000, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"mem", "mem", "level"}).Draw(t, "storage")
		b := faultdb.NewBox(kind, nil)
		defer b.Close()
		jitter := rapid.SampledFrom([]int{0, 1, 2}).Draw(t, "jitter")
		mt, err := merkletree.NewMerkleTree(faultdb.NewJitter(b.Storage(), jitter, rapid.Uint64().Draw(t, "jitter seed")), 140)
		if err != nil {
			t.Fatalf("open: %v", err)
		}
		adders := rapid.IntRange(1, 4).Draw(t, "adders")
		readers := rapid.IntRange(1, 3).Draw(t, "readers")
		var lists [][]mtx.Entry
		byHi := map[H][]mtx.Entry{}
		total := 0
		for i := 0; i < adders; i++ {
			l := mtx.Cluster(1, 6).Draw(t, "list")
			total += len(l)
			lists = append(lists, l)
			for _, e := range l {
				byHi[e.Hi()] = append(byHi[e.Hi()], e)
			}
		}
		ops := make([][]int, readers)
		his := make([][]H, readers)
		for r := range ops {
			ops[r] = rapid.SliceOfN(rapid.IntRange(0, 8), 4, 20).Draw(t, "reads")
			for range ops[r] {
				l := lists[rapid.IntRange(0, adders-1).Draw(t, "li")]
				his[r] = append(his[r], l[rapid.IntRange(0, len(l)-1).Draw(t, "ei")].Hi())
			}
		}
		var mu sync.Mutex
		won := map[H]mtx.Entry{} // acknowledged
		var bad []string
		fail := func(format string, args ...interface{}) {
			mu.Lock()
			bad = append(bad, fmt.Sprintf(format, args...))
			mu.Unlock()
		}
		ackd := func(h H) (mtx.Entry, bool) {
			mu.Lock()
			defer mu.Unlock()
			e, ok := won[h]
			return e, ok
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range lists {
			wg.Add(1)
			go func(l []mtx.Entry) {
				defer wg.Done()
				<-start
				for _, e := range l {
					err := mt.AddEntry(e.E())
					switch err {
					case nil:
						mu.Lock()
						if o, dup := won[e.Hi()]; dup {
							bad = append(bad, fmt.Sprintf("two entries with one index were both accepted: %v and %v", o, e))
						}
						won[e.Hi()] = e
						mu.Unlock()
					case merkletree.ErrEntryIndexAlreadyExists:
					default:
						fail("adding %v: %v", e, err)
					}
				}
			}(lists[i])
		}
		for r := range ops {
			wg.Add(1)
			go func(r int) {
				defer wg.Done()
				<-start
				for i, op := range ops[r] {
					h := his[r][i]
					before, was := ackd(h)
					candidate := func(e mtx.Entry) bool {
						for _, c := range byHi[h] {
							if c == e {
								return true
							}
						}
						return false
					}
					switch op {
					case 0, 1:
						d, err := mt.GetDataByIndex(mtx.Hash(h))
						if err == nil && (!candidate(mtx.FromE(d)) || (was && mtx.FromE(d) != before)) {
							fail("lookup gives %v", mtx.FromE(d))
						}
						if err != nil && (was || err != merkletree.ErrEntryIndexNotFound) {
							fail("lookup of an index (added before: %v): %v", was, err)
						}
					case 2:
						root := mt.RootKey()
						p, err := mt.GenerateProof(mtx.Hash(h), root)
						if err != nil {
							fail("proof: %v", err)
							continue
						}
						if was && !p.Existence {
							fail("a proof denies an entry added before")
						}
						ok := false
						if p.Existence {
							for _, c := range byHi[h] {
								ok = ok || merkletree.VerifyProof(root, p, mtx.Hash(h), mtx.Hash(c.Hv()))
							}
						} else {
							ok = merkletree.VerifyProof(root, p, mtx.Hash(h), mtx.Hash(H{}))
						}
						if !ok {
							fail("a proof for the root it was asked for does not verify")
						}
					case 3:
						root := *mt.RootKey()
						sn, err := mt.Snapshot(&root)
						if err != nil {
							fail("snapshot: %v", err)
							continue
						}
						n := 0
						s := mtx.Set{}
						if err := sn.Walk(nil, func(nd *merkletree.Node) {
							if nd.Type == merkletree.NodeTypeLeaf {
								n++
								e := mtx.FromE(&nd.Entry.Data)
								s[e.Hi()] = e
							}
						}); err != nil {
							fail("walk: %v", err)
						}
						if n != len(s) || s.Root() != H(root) {
							fail("a snapshot enumerates a set that does not have its root")
						}
					case 4:
						var w bytes.Buffer
						var root *merkletree.Hash
						if i%2 == 0 {
							k := *mt.RootKey()
							root = &k
						}
						if err := mt.DumpTree(&w, root); err != nil {
							fail("dump: %v", err)
							continue
						}
						c, err := merkletree.NewMerkleTree(faultdb.NewBox("mem", nil).Storage(), 140)
						if err != nil {
							fail("open: %v", err)
							continue
						}
						err = c.ImportTree(&w)
						if err != nil || (root != nil && rootOf(c) != H(*root)) {
							fail("a dump taken while the tree grows does not restore: %v", err)
							continue
						}
						s := mtx.Set{}
						if err := c.Walk(nil, func(nd *merkletree.Node) {
							if nd.Type == merkletree.NodeTypeLeaf {
								e := mtx.FromE(&nd.Entry.Data)
								s[e.Hi()] = e
							}
						}); err != nil {
							fail("walking what a dump taken while the tree grows restores (root given: %v): %v", root != nil, err)
						}
						if s.Root() != rootOf(c) {
							fail("a dump taken while the tree grows restores entries that don't have its root")
						}
						if got, ok := s[h]; was && root == nil && (!ok || got != before) {
							fail("a dump lacks an entry added before")
						}
					case 6:
						p, err := mt.GenerateProof(mtx.Hash(h), nil)
						if err != nil {
							fail("proof for the current root: %v", err)
							continue
						}
						if was && !p.Existence {
							fail("a proof for the current root denies an entry added before")
						}
					case 7:
						n := 0
						s := mtx.Set{}
						if err := mt.Walk(nil, func(nd *merkletree.Node) {
							if nd.Type == merkletree.NodeTypeLeaf {
								n++
								e := mtx.FromE(&nd.Entry.Data)
								s[e.Hi()] = e
							}
						}); err != nil {
							fail("walk of the current root: %v", err)
							continue
						}
						if got, ok := s[h]; n != len(s) || was && (!ok || got != before) {
							fail("a walk of the current root gives %d leaves of %d indexes, without one added before", n, len(s))
						}
					case 8:
						var w bytes.Buffer
						if err := mt.GraphViz(&w, nil); err != nil {
							fail("drawing: %v", err)
						}
					case 5:
						l := byHi[h]
						err := mt.EntryExists(l[0].E(), nil)
						if was && (err == nil) != (before == l[0]) {
							fail("EntryExists of an entry added before: %v", err)
						}
					}
				}
			}(r)
		}
		vh.Within("concurrent use of a tree", func() { close(start); wg.Wait() })
		if len(bad) > 0 {
			t.Fatalf("%v", bad[0])
		}
		s := mtx.Set{}
		for h := range byHi {
			e, ok := won[h]
			if !ok {
				t.Fatalf("no adder of index %x succeeded", h)
			}
			s[h] = e
		}
		if rootOf(mt) != s.Root() {
			t.Fatalf("the root is not that of the acknowledged entries")
		}
		checkEnum(t, mt, nil, s)
		b.Reopen()
		mt = open(t, b, 140)
		if rootOf(mt) != s.Root() {
			t.Fatalf("the stored root is not that of the acknowledged entries")
		}
		checkEnum(t, mt, nil, s)
		rec.Label("storage %s", kind)
		rec.Label("jitter %d", jitter)
		rec.Label("%d adders", adders)
		rec.Case(adders >= 2 && total >= 2, "%s %d adders %d readers %v", kind, adders, readers, lists)
	})
}
