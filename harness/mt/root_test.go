package mt

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verifharness/mtx"
	"verifharness/vh"
)

// TestM02_CanonicalRoot: the root is the one the set of entries defines, at
// every step and whatever the order.
func TestM02_CanonicalRoot(t *testing.T) {
	rec := vh.NewRec("M02_CanonicalRoot", "a set of entries is inserted in two generated orders, with refused insertions and reopenings in between; after each step the root is compared with the root computed by definition; non-trivial: at least 3 entries, two different orders, and a refused insertion")
	vh.Check(t, 2400, 60000, func(t *rapid.T) {
		es := mtx.Cluster(1, 24).Draw(t, "entries")
		levels := mtx.Levels().Draw(t, "levels")
		bad := rapid.IntRange(0, 3).Draw(t, "bad")
		refused := 0
		var roots []H
		var sets []mtx.Set
		idx := make([]int, len(es))
		for i := range idx {
			idx[i] = i
		}
		perm := rapid.Permutation(idx).Draw(t, "perm")
		for run, order := range [][]int{idx, perm} {
			b := drawBox(t)
			mt := open(t, b, levels)
			s := mtx.Set{}
			if rootOf(mt) != (H{}) {
				b.Close()
				t.Fatalf("the root of an empty tree is %x", rootOf(mt))
			}
			for n, i := range order {
				before := rootOf(mt)
				in := add(t, mt, s, es[i], levels, false)
				after := rootOf(mt)
				if !in {
					refused++
					if after != before {
						t.Fatalf("a refused insertion changed the root")
					}
				}
				want := s.Root()
				if after != want {
					t.Fatalf("run %d: after %d entries the root is %x, by definition %x", run, len(s), after, want)
				}
				if bad > 0 && n%7 == bad {
					x := es[i]
					x[n%8] = mtx.Elem(true).Draw(t, "badelem")
					add(t, mt, s, x, levels, false)
					// a second value for a present index
					y := es[i]
					y[4+n%4][0] ^= 1
					add(t, mt, s, y, levels, true)
					refused++
					if rootOf(mt) != s.Root() {
						t.Fatalf("a refused insertion changed the root")
					}
				}
				if n%5 == 4 {
					b.Reopen()
					mt = open(t, b, levels)
					if rootOf(mt) != s.Root() {
						t.Fatalf("the root after a reopening is %x, want %x", rootOf(mt), s.Root())
					}
				}
			}
			b.Reopen()
			mt = open(t, b, levels)
			if rootOf(mt) != s.Root() {
				t.Fatalf("the root after a reopening is %x, want %x", rootOf(mt), s.Root())
			}
			roots = append(roots, rootOf(mt))
			sets = append(sets, s)
			b.Close()
		}
		same := sets[0].Equal(sets[1])
		if same != (roots[0] == roots[1]) {
			t.Fatalf("the two orders hold the same set: %v; the same root: %v", same, roots[0] == roots[1])
		}
		differ := fmt.Sprint(idx) != fmt.Sprint(perm)
		rec.LabelIf(same, "both orders hold the same set")
		rec.LabelIf(!same, "orders hold different sets (depth limit or duplicate index)")
		rec.Label("size %d0s", len(sets[0])/10)
		rec.Case(len(sets[0]) >= 3 && differ && refused > 0, "L%d %v then %v", levels, es, perm)
	})
}

// TestM02_RootBindsContent: changing any one element of any one entry, or
// leaving an entry out, changes the root.
func TestM02_RootBindsContent(t *testing.T) {
	rec := vh.NewRec("M02_RootBindsContent", "a set of entries and a copy with one element changed or one entry missing; non-trivial: at least 2 entries")
	vh.Check(t, 2400, 60000, func(t *rapid.T) {
		es := mtx.Cluster(1, 8).Draw(t, "entries")
		build := func(es []mtx.Entry) (H, mtx.Set) {
			b := drawBox(t)
			defer b.Close()
			mt := open(t, b, 140)
			s := mtx.Set{}
			for _, e := range es {
				add(t, mt, s, e, 140, false)
			}
			return rootOf(mt), s
		}
		r0, s0 := build(es)
		mod := append([]mtx.Entry(nil), es...)
		i := rapid.IntRange(0, len(es)-1).Draw(t, "which")
		what := ""
		if rapid.IntRange(0, 3).Draw(t, "drop") == 0 {
			mod = append(mod[:i], mod[i+1:]...)
			what = fmt.Sprintf("drop %d", i)
		} else {
			slot := rapid.IntRange(0, 7).Draw(t, "slot")
			mod[i][slot] = mtx.Elem(false).Draw(t, "elem")
			what = fmt.Sprintf("%d[%d]", i, slot)
		}
		r1, s1 := build(mod)
		same := s0.Equal(s1)
		if same != (r0 == r1) {
			t.Fatalf("same content: %v, same root: %v", same, r0 == r1)
		}
		rec.LabelIf(same, "no change")
		rec.Case(!same && len(es) >= 2, "%v %s", es, what)
	})
}
