package mt

import (
	"bytes"
	"errors"
	"fmt"
	"testing"

	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"

	"verifharness/faultdb"
	"verifharness/mtx"
	"verifharness/vh"
)

// TestM07_Faults: for one operation on a generated tree, every storage
// operation it makes is made to fail, and to crash, in turn.
func TestM07_Faults(t *testing.T) {
	rec := vh.NewRec("M07_Faults", "a generated tree and one operation on it (open, add, import of a dump, lookup, proof, dump); for every storage operation it makes, a run where that one fails, and runs that crash before and after it; evaluation = one faulty run; non-trivial: the fault fired")
	vh.Check(t, 700, 16000, func(t *rapid.T) {
		levels := rapid.SampledFrom([]int{140, 140, 24, 10}).Draw(t, "levels")
		es := mtx.Cluster(0, 8).Draw(t, "entries")
		op := rapid.SampledFrom([]string{"open", "openNew", "add", "add", "add", "import", "lookup", "proof", "dump", "snapshot", "exists"}).Draw(t, "op")
		target := mtx.Entries().Draw(t, "target")
		kind := rapid.SampledFrom([]string{"mem", "memprefix", "mem", "level"}).Draw(t, "storage")
		if op == "openNew" {
			es = nil
		}
		if !target.InField() {
			return
		}
		otherSet := mtx.Set{}
		var otherDump bytes.Buffer
		{
			ob := faultdb.NewBox("mem", nil)
			om := open(t, ob, 140)
			add(t, om, otherSet, mtx.SeedEntry(700001), 140, false)
			add(t, om, otherSet, mtx.SeedEntry(700002), 140, false)
			if err := om.DumpTree(&otherDump, nil); err != nil {
				t.Fatalf("dump: %v", err)
			}
		}

		run := func(mode string, at int) (fired bool, ops int) {
			b := faultdb.NewBox(kind, []byte("p"))
			defer b.Close()
			fs := faultdb.New(b.Storage())
			s := mtx.Set{}
			var mt *merkletree.MerkleTree
			if op != "openNew" {
				var err error
				if mt, err = merkletree.NewMerkleTree(fs, levels); err != nil {
					t.Fatalf("open: %v", err)
				}
				for _, e := range es {
					add(t, mt, s, e, levels, false)
				}
			}
			pre := s.Clone()
			post := s.Clone()
			fs.P.Reset()
			switch mode {
			case "fail":
				fs.P.FailAt = at
			case "before":
				fs.P.CrashBefore = at
			case "after":
				fs.P.CrashAfter = at
			}
			var err error
			var nt *merkletree.MerkleTree
			hi := target.Hi()
			crashed := faultdb.Run(func() {
				switch op {
				case "open", "openNew":
					nt, err = merkletree.NewMerkleTree(fs, levels)
				case "add":
					if _, dup := s[hi]; !dup && s.Fits(hi, levels) {
						post[hi] = target
					}
					err = mt.AddEntry(target.E())
				case "import":
					post = otherSet.Clone()
					err = mt.ImportTree(bytes.NewReader(otherDump.Bytes()))
				case "lookup":
					var d *merkletree.Data
					d, err = mt.GetDataByIndex(mtx.Hash(hi))
					if e, ok := s[hi]; err == nil && (!ok || mtx.FromE(d) != e) {
						t.Fatalf("lookup under fault returned wrong data")
					}
					if _, ok := s[hi]; ok && errors.Is(err, merkletree.ErrEntryIndexNotFound) {
						t.Fatalf("lookup under fault denies a present entry")
					}
				case "exists":
					err = mt.EntryExists(target.E(), nil)
					if e, ok := s[hi]; err == nil && (!ok || e != target) {
						t.Fatalf("EntryExists under fault affirms an absent entry")
					}
				case "proof":
					var p *merkletree.Proof
					p, err = mt.GenerateProof(mtx.Hash(hi), nil)
					if err == nil {
						checkProof(t, p, s, hi, pre.Root(), H{7})
					}
				case "dump":
					var w bytes.Buffer
					err = mt.DumpTree(&w, nil)
					if err == nil {
						c := faultdb.NewBox("mem", nil)
						cm := open(t, c, levels)
						if e := cm.ImportTree(&w); e != nil || rootOf(cm) != pre.Root() {
							t.Fatalf("a dump that reported no error does not restore: %v", e)
						}
						checkEnum(t, cm, nil, pre)
					}
				case "snapshot":
					nt, err = mt.Snapshot(mtx.Hash(pre.Root()))
				}
			})
			fired, ops = fs.P.Fired, fs.P.N
			changed := !crashed && err == nil
			commits := fs.P.Commits
			_ = commits
			fs.P.Reset()
			isWrite := op == "add" || op == "import"
			if fired && !crashed && err == nil {
				// succeeding in spite of the fault is fine only when
				// the outcome is complete, which is checked below
				rec.Label("%s survived a fault", op)
			}
			// what the tree in memory shows
			if !crashed && mt != nil {
				want := pre
				if changed && isWrite {
					want = post
				}
				if rootOf(mt) != want.Root() {
					t.Fatalf("%s %s@%d: err=%v, the tree shows root %x, want %x", op, mode, at, err, rootOf(mt), want.Root())
				}
				checkEnum(t, mt, nil, want)
			}
			// what a fresh process finds
			b.Reopen()
			re := open(t, b, levels)
			r := rootOf(re)
			var found mtx.Set
			switch {
			case !isWrite:
				found = pre
			case crashed && (r == pre.Root() || r == post.Root()):
				found = pre
				if r == post.Root() {
					found = post
				}
			case crashed:
				t.Fatalf("%s %s@%d: after the crash the root is %x, neither before nor after", op, mode, at, r)
			case changed:
				found = post
			default:
				found = pre
			}
			if r != found.Root() {
				t.Fatalf("%s %s@%d: err=%v, a fresh process finds root %x, want %x", op, mode, at, err, r, found.Root())
			}
			checkEnum(t, re, nil, found)
			// and it goes on working: the same write succeeds on retry
			cont := re
			if !crashed && mt != nil && kind != "level" {
				cont = mt
			}
			if op == "add" {
				f := found.Clone()
				add(t, cont, f, target, levels, false)
				if rootOf(cont) != f.Root() {
					t.Fatalf("%s %s@%d: retry gives a wrong root", op, mode, at)
				}
				checkEnum(t, cont, nil, f)
			}
			if op == "import" {
				if e := cont.ImportTree(bytes.NewReader(otherDump.Bytes())); e != nil || rootOf(cont) != otherSet.Root() {
					t.Fatalf("%s %s@%d: retry of the import: %v", op, mode, at, e)
				}
			}
			if (op == "open" || op == "openNew") && err == nil && !crashed && nt != nil && rootOf(nt) != pre.Root() {
				t.Fatalf("open %s@%d: root %x, want %x", mode, at, rootOf(nt), pre.Root())
			}
			return fired, ops
		}
		_, ops := run("none", 0)
		for _, mode := range []string{"fail", "before", "after"} {
			for at := 1; at <= ops; at++ {
				fired, _ := run(mode, at)
				rec.LabelIf(fired, mode+" "+op)
				rec.Case(fired, "%s %s@%d/%d L%d %s %v + %v", op, mode, at, ops, levels, kind, es, target)
			}
		}
		if ops == 0 {
			rec.Case(false, "no storage operation")
		}
	})
}

var _ = fmt.Sprint
