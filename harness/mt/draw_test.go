package mt

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"

	"verifharness/mtx"
	"verifharness/vh"
)

// short is how a drawing names a node.
func short(h H) string { return fmt.Sprintf("%x...", h[:4]) }

// drawn are the lines of the drawing of a set, in order of the alphabet.
func drawn(s mtx.Set) (r []string) {
	var node func(ks []H, lvl int) string
	node = func(ks []H, lvl int) string {
		if len(ks) == 0 {
			return "empty"
		}
		if len(ks) == 1 {
			l, _ := mtx.Leaf(ks[0], s[ks[0]].Hv())
			r = append(r, "leaf "+short(l))
			return short(l)
		}
		i := sort.Search(len(ks), func(i int) bool { return mtx.Bit(ks[i], lvl) })
		a, b := node(ks[:i], lvl+1), node(ks[i:], lvl+1)
		k := short(subRoot(s, ks[0], lvl))
		r = append(r, k+" -> "+a+" "+b)
		return k
	}
	node(s.Keys(), 0)
	sort.Strings(r)
	return r
}

var (
	gvLeaf  = regexp.MustCompile(`^\s*"([0-9a-f.]+)"\s*\[style=filled\];?\s*$`)
	gvEdge  = regexp.MustCompile(`^\s*"([0-9a-f.]+)"\s*->\s*\{\s*"([0-9a-z.]+)"\s+"([0-9a-z.]+)"\s*\};?\s*$`)
	gvEmpty = regexp.MustCompile(`^\s*"(empty[0-9]+)"\s*\[style=dashed`)
)

// readDrawing takes the lines out of a drawing.
func readDrawing(text string) (r []string, err error) {
	empties := map[string]int{}
	uses := 0
	for _, l := range strings.Split(text, "\n") {
		if m := gvLeaf.FindStringSubmatch(l); m != nil {
			r = append(r, "leaf "+m[1])
		} else if m := gvEdge.FindStringSubmatch(l); m != nil {
			for i := 2; i < 4; i++ {
				if strings.HasPrefix(m[i], "empty") {
					if empties[m[i]] != 1 {
						return nil, fmt.Errorf("%s is drawn %d times", m[i], empties[m[i]])
					}
					uses++
					m[i] = "empty"
				}
			}
			r = append(r, m[1]+" -> "+m[2]+" "+m[3])
		} else if m := gvEmpty.FindStringSubmatch(l); m != nil {
			empties[m[1]]++
		}
	}
	if uses != len(empties) {
		return nil, fmt.Errorf("%d empty nodes are shared by %d places", len(empties), uses)
	}
	if n := strings.Count(text, "{"); n != strings.Count(text, "}") || !strings.Contains(text, "digraph") {
		return nil, fmt.Errorf("no drawing: %q", text)
	}
	sort.Strings(r)
	return r, nil
}

// printed is what f prints.
func printed(f func() error) (string, error) {
	r, w, err := os.Pipe()
	vh.Must(err)
	old := os.Stdout
	os.Stdout = w
	out := make(chan []byte, 1)
	go func() {
		b, _ := io.ReadAll(r)
		out <- b
	}()
	var ferr error
	msg := vh.Catch(func() { ferr = f() })
	os.Stdout = old
	_ = w.Close()
	b := <-out
	_ = r.Close()
	if msg != "" {
		ferr = fmt.Errorf("panics: %s", msg)
	}
	return string(b), ferr
}

// TestM10_Drawing: a drawing shows the tree at the root, and drawing it
// changes nothing.
func TestM10_Drawing(t *testing.T) {
	rec := vh.NewRec("M10_Drawing", "trees grown from entries with colliding paths, drawn (to a writer, or printed) at the present root, past roots, in snapshots, and at roots that are not stored, compared with the leaves, nodes and empty places by definition; non-trivial: at least 3 entries")
	vh.Check(t, 1200, 30000, func(t *rapid.T) {
		b := drawBox(t)
		defer b.Close()
		levels := mtx.Levels().Draw(t, "levels")
		mt := open(t, b, levels)
		hist := grow(t, mt, mtx.Cluster(0, 14).Draw(t, "entries"), levels)
		last := hist[len(hist)-1]
		for n := rapid.IntRange(1, 4).Draw(t, "drawings"); n > 0; n-- {
			at := last
			var rootArg *merkletree.Hash
			src := mt
			switch rapid.SampledFrom([]string{"now", "named", "past", "snapshot"}).Draw(t, "what") {
			case "named":
				rootArg = mtx.Hash(at.root)
			case "past":
				at = hist[rapid.IntRange(0, len(hist)-1).Draw(t, "when")]
				rootArg = mtx.Hash(at.root)
			case "snapshot":
				at = hist[rapid.IntRange(0, len(hist)-1).Draw(t, "when")]
				var err error
				if src, err = mt.Snapshot(mtx.Hash(at.root)); err != nil {
					t.Fatalf("snapshot: %v", err)
				}
			}
			way := rapid.SampledFrom([]string{"writer", "print"}).Draw(t, "way")
			draw := func(root *merkletree.Hash) (string, error) {
				if way == "print" {
					return printed(func() error { return src.PrintGraphViz(root) })
				}
				var w bytes.Buffer
				err := src.GraphViz(&w, root)
				return w.String(), err
			}
			text, err := draw(rootArg)
			if err != nil {
				t.Fatalf("drawing (%s): %v", way, err)
			}
			got, err := readDrawing(text)
			if err != nil {
				t.Fatalf("the drawing (%s): %v\n%s", way, err, text)
			}
			if want := drawn(at.s); strings.Join(got, "\n") != strings.Join(want, "\n") {
				t.Fatalf("the drawing (%s) at the root of %d of %d entries shows\n%s\nby definition\n%s", way, len(at.s), len(last.s), strings.Join(got, "\n"), strings.Join(want, "\n"))
			}
			if way == "print" && !strings.Contains(text, fmt.Sprintf("%x", at.root[:])) {
				t.Fatalf("the print doesn't name the root %x:\n%s", at.root[:], text)
			}
			// a root that isn't there
			if no := (H{5, byte(n), 7}); rapid.Bool().Draw(t, "no root") {
				if _, err := draw(mtx.Hash(no)); err == nil {
					t.Fatalf("a root that isn't stored was drawn (%s)", way)
				}
				rec.Label("no root")
			}
			rec.LabelIf(at.root != last.root, "past root")
			rec.Label("%s", way)
		}
		if rootOf(mt) != last.root {
			t.Fatalf("drawing changed the root")
		}
		rec.Case(len(last.s) > 2, "%x", last.root)
	})
}
