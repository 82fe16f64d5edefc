package pub

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/readerhttp"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"

	"verifharness/faultdb"
	"verifharness/mtx"
	"verifharness/vh"
	"verifharness/world"
)

func dump(mt *merkletree.MerkleTree, root H) []byte {
	w := &bytes.Buffer{}
	vh.Must(mt.DumpTree(w, mtx.Hash(root)))
	return w.Bytes()
}

// records cuts a dump into its records.
func records(d []byte) (rs [][]byte) {
	for len(d) > 0 {
		if len(d) < 3 {
			return append(rs, d)
		}
		n := 3 + int(d[0]) + int(d[1]) + int(d[2])<<8
		if len(d) < n {
			return append(rs, d)
		}
		rs = append(rs, d[:n:n])
		d = d[n:]
	}
	return rs
}

// spoil damages a dump of mine, knowing one of another tree.
func spoil(t *rapid.T, d, other []byte) ([]byte, string) {
	d = append([]byte(nil), d...)
	rs, os := records(d), records(other)
	i := rapid.IntRange(0, len(rs)-1).Draw(t, "record")
	kind := rapid.SampledFrom([]string{"other", "empty", "cut", "byte", "byte", "drop", "forge", "forge", "graft", "tail"}).Draw(t, "damage")
	switch kind {
	case "other":
		return other, kind
	case "empty":
		return nil, kind
	case "cut":
		return d[:rapid.IntRange(0, len(d)-1).Draw(t, "cut")], kind
	case "byte":
		d[rapid.IntRange(0, len(d)-1).Draw(t, "at")] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
		return d, kind
	case "drop":
		rs = append(rs[:i:i], rs[i+1:]...)
	case "forge":
		// another content under the key of a node
		o := os[rapid.IntRange(0, len(os)-1).Draw(t, "content")]
		if len(o) > 35 && len(rs[i]) > 35 && o[0] == 32 && rs[i][0] == 32 {
			f := append([]byte(nil), o...)
			copy(f[3:35], rs[i][3:35])
			rs[i] = f
		}
	case "graft":
		rs = append([][]byte{os[rapid.IntRange(0, len(os)-1).Draw(t, "content")]}, rs...)
	case "tail":
		rs = append(rs, []byte{0, 0, 0})
	}
	return bytes.Join(rs, nil), kind
}

// TestP02_Tampered: what is accepted is what the roots stand for.
func TestP02_Tampered(t *testing.T) {
	rec := vh.NewRec("P02_Tampered", "published data with up to 3 faults: roots or states of another version, outside the field or altered, dumps cut, altered, forged, mixed with another tree, served directly or by a web server that may also answer with errors and damaged JSON; anything accepted has to show exactly what its roots stand for; non-trivial: at least one fault")
	vh.Check(t, 4800, 80000, func(t *rapid.T) {
		i := newIden(3)
		a := i.grow(t)
		b := i.grow(t)
		if rapid.Bool().Draw(t, "swap versions") {
			a, b = b, a
		}
		blobs := idenpuboffchain.PublicDataBlobs{IdenState: *mtx.Hash(a.state), ClaimsTreeRoot: *mtx.Hash(a.clr), RevocationsTreeRoot: *mtx.Hash(a.rer), RootsTreeRoot: *mtx.Hash(a.ror),
			RevocationsTree: dump(i.revs, a.rer), RootsTree: dump(i.roots, a.ror)}
		asked := a.state
		var faults []string
		damaged := false
		for n := rapid.IntRange(0, 3).Draw(t, "faults"); n > 0; n-- {
			switch kind := rapid.SampledFrom([]string{"root", "root", "revocations", "roots", "swap", "version", "state"}).Draw(t, "fault"); kind {
			case "root", "state":
				f := map[string]*merkletree.Hash{"claims": &blobs.ClaimsTreeRoot, "revocations": &blobs.RevocationsTreeRoot, "roots": &blobs.RootsTreeRoot}
				which := rapid.SampledFrom([]string{"claims", "revocations", "roots"}).Draw(t, "which")
				p := f[which]
				if kind == "state" {
					p, which = &blobs.IdenState, "state"
				}
				switch how := rapid.SampledFrom([]string{"elem", "bad", "zero", "flip", "reduce"}).Draw(t, "how"); how {
				case "elem":
					*p = merkletree.Hash(mtx.Elem(false).Draw(t, "elem"))
				case "bad":
					*p = merkletree.Hash(mtx.Elem(true).Draw(t, "elem"))
				case "zero":
					*p = merkletree.Hash{}
				case "flip":
					p[rapid.IntRange(0, 31).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				case "reduce":
					// the same element written another way
					v := mtx.Int(H(*p))
					if v.Add(v, mtx.Q); v.BitLen() <= 256 {
						*p = merkletree.Hash(mtx.FromInt(v))
					}
				}
				faults = append(faults, which)
			case "revocations", "roots":
				d, o := &blobs.RevocationsTree, dump(i.revs, b.rer)
				if kind == "roots" {
					d, o = &blobs.RootsTree, dump(i.roots, b.ror)
				}
				if rapid.IntRange(0, 4).Draw(t, "cross") == 0 {
					o = dump(i.roots, b.ror)
				}
				if len(*d) == 0 {
					break
				}
				var how string
				*d, how = spoil(t, *d, o)
				damaged = true
				faults = append(faults, kind+" "+how)
			case "swap":
				blobs.RevocationsTree, blobs.RootsTree = blobs.RootsTree, blobs.RevocationsTree
				if rapid.Bool().Draw(t, "with roots") {
					blobs.RevocationsTreeRoot, blobs.RootsTreeRoot = blobs.RootsTreeRoot, blobs.RevocationsTreeRoot
				}
				damaged = true
				faults = append(faults, kind)
			case "version":
				asked = b.state
				faults = append(faults, kind)
			}
		}
		consistent := func() (H, bool) {
			return mtx.Poseidon(H(blobs.ClaimsTreeRoot), H(blobs.RevocationsTreeRoot), H(blobs.RootsTreeRoot))
		}
		if st, ok := consistent(); ok && rapid.Bool().Draw(t, "state follows") {
			blobs.IdenState = merkletree.Hash(st)
		}
		// how it is served
		status, body := 200, []byte(nil)
		served := blobs
		served.RevocationsTree, served.RootsTree = append([]byte(nil), blobs.RevocationsTree...), append([]byte(nil), blobs.RootsTree...)
		way := rapid.SampledFrom([]string{"direct", "direct", "direct", "http", "http", "status", "json"}).Draw(t, "way")
		switch way {
		case "status":
			status = rapid.SampledFrom([]int{400, 404, 500, 503, 204, 304, 201}).Draw(t, "status")
		case "json":
			body, _ = json.Marshal(&blobs)
			for n := rapid.IntRange(1, 3).Draw(t, "edits"); n > 0; n-- {
				p := rapid.IntRange(0, len(body)-1).Draw(t, "pos")
				switch rapid.IntRange(0, 2).Draw(t, "edit") {
				case 0:
					body[p] = rapid.SampledFrom([]byte(`"{}[],:0x1az\ `)).Draw(t, "char")
				case 1:
					body = append(body[:p:p], body[p+rapid.IntRange(0, min(8, len(body)-p-1)).Draw(t, "len"):]...)
				default:
					body = body[:max(p, 1)]
				}
			}
			damaged = true
		}
		query := rapid.IntRange(0, 3).Draw(t, "query last") > 0
		var pd *idenpuboffchain.PublicData
		var err error
		if msg := vh.Catch(func() {
			if way == "direct" {
				pd, err = idenpuboffchain.NewPublicDataFromBlobs(&served)
				return
			}
			url := world.ServeFunc(func(rw http.ResponseWriter, r *http.Request) {
				rw.Header().Set("Content-Type", "application/json")
				rw.WriteHeader(status)
				if body != nil {
					_, _ = rw.Write(body)
				} else {
					_ = json.NewEncoder(rw).Encode(&served)
				}
			})
			defer world.Forget(url)
			var st *merkletree.Hash
			if query {
				st = mtx.Hash(asked)
			}
			pd, err = readerhttp.NewIdenPubOffChainHttp().GetPublicData(url, &i.id, st)
		}); msg != "" {
			t.Fatalf("%s with the faults %v panics: %s", way, faults, msg)
		}
		descr := fmt.Sprintf("%s %d %v %v asked for %x.. of %d/%d revocations", way, status, faults, a, asked[:3], len(a.revs), len(b.revs))
		rec.LabelIf(err == nil, "accepted")
		for _, f := range faults {
			rec.Label("%s accepted %v", f, err == nil)
		}
		rec.Case(len(faults) > 0 || way == "status" || way == "json", "%s", descr)
		if err != nil {
			st, ok := consistent()
			genuine := H(blobs.RevocationsTreeRoot) == a.rer && H(blobs.RootsTreeRoot) == a.ror
			if !damaged && genuine && ok && st == H(blobs.IdenState) && (way == "direct" || way == "http" && (!query || asked == st)) {
				t.Fatalf("%s: proper data is refused: %v", descr, err)
			}
			return
		}
		if pd == nil || pd.IdenState == nil || pd.ClaimsTreeRoot == nil || pd.RevocationsTreeRoot == nil || pd.RootsTreeRoot == nil || pd.RevocationsTree == nil || pd.RootsTree == nil {
			t.Fatalf("%s: accepted incomplete data %+v", descr, pd)
		}
		if way == "status" && status != 201 {
			t.Fatalf("%s: data with an error status is accepted", descr)
		}
		if way != "direct" && query && H(*pd.IdenState) != asked {
			t.Fatalf("%s: asked for state %x, got state %x", descr, asked, pd.IdenState[:])
		}
		if st, ok := consistent(); way != "json" && (!ok || st != H(blobs.IdenState)) {
			t.Fatalf("%s: accepted data whose state is not the hash of its roots", descr)
		}
		st, ok := mtx.Poseidon(H(*pd.ClaimsTreeRoot), H(*pd.RevocationsTreeRoot), H(*pd.RootsTreeRoot))
		if !ok || st != H(*pd.IdenState) {
			t.Fatalf("%s: accepted state %x is not the hash of its roots", descr, pd.IdenState[:])
		}
		for _, x := range []struct {
			what string
			mt   *merkletree.MerkleTree
			root H
		}{{"revocations", pd.RevocationsTree, H(*pd.RevocationsTreeRoot)}, {"roots", pd.RootsTree, H(*pd.RootsTreeRoot)}} {
			if H(*x.mt.RootKey()) != x.root {
				t.Fatalf("%s: the %s tree has another root than announced", descr, x.what)
			}
			// with an altered dump nodes may be missing
			got, errW := world.Leaves(x.mt, nil)
			if errW == nil && got.Root() != x.root || errW != nil && !damaged {
				t.Fatalf("%s: the %s tree of root %x has the entries %v (%v)", descr, x.what, x.root, got, errW)
			}
			for _, s := range []mtx.Set{a.revs, b.revs, a.roots, b.roots} {
				if s.Root() != x.root {
					continue
				}
				hi := mtx.CraftedHi(s).Draw(t, "hi")
				p, err := x.mt.GenerateProof(mtx.Hash(hi), nil)
				if err == nil && !bytes.Equal(p.Bytes(), s.Proof(hi).Bytes()) {
					t.Fatalf("%s: the %s tree of root %x gives a wrong proof of %x: %x", descr, x.what, x.root, hi, p.Bytes())
				}
				if err != nil && !damaged {
					t.Fatalf("%s: no proof from the %s tree: %v", descr, x.what, err)
				}
			}
		}
	})
}

// same compares without drawing.
func same(pd *idenpuboffchain.PublicData, v *version) error {
	if !hashIs(pd.IdenState, v.state) || !hashIs(pd.ClaimsTreeRoot, v.clr) || !hashIs(pd.RevocationsTreeRoot, v.rer) || !hashIs(pd.RootsTreeRoot, v.ror) {
		return fmt.Errorf("mixed states and roots: %v %v %v %v", pd.IdenState.Hex(), pd.ClaimsTreeRoot.Hex(), pd.RevocationsTreeRoot.Hex(), pd.RootsTreeRoot.Hex())
	}
	for _, x := range []struct {
		mt *merkletree.MerkleTree
		s  mtx.Set
	}{{pd.RevocationsTree, v.revs}, {pd.RootsTree, v.roots}} {
		got, err := world.Leaves(x.mt, nil)
		if err != nil || !got.Equal(x.s) {
			return fmt.Errorf("a tree has the entries %v (%v), want %v", got, err, x.s)
		}
	}
	return nil
}

// TestP03_Concurrent: publishing and reading at the same time.
func TestP03_Concurrent(t *testing.T) {
	rec := vh.NewRec("P03_Concurrent", "2 to 4 goroutines that publish the states of one identity to a web or local place and read them and the last one, under the race detector; every answer is one whole publication, and one that had to be there; non-trivial: at least 2 goroutines publish")
	vh.Check(t, 320, 6000, func(t *rapid.T) {
		i := newIden(5)
		for n := rapid.IntRange(2, 6).Draw(t, "versions"); n > 0; n-- {
			i.grow(t)
		}
		kind := rapid.SampledFrom([]string{"http", "http", "http level", "local"}).Draw(t, "kind")
		cache := rapid.SampledFrom([]int{2, 4, 100}).Draw(t, "cache")
		var publish func(*version) error
		var read func(*merkletree.Hash) (*idenpuboffchain.PublicData, error)
		if kind == "local" {
			l := local.NewIdenPubOffChain("u")
			cache = 1 << 30
			publish = func(v *version) error { id := i.id; return l.Publish(&id, i.data(v)) }
			read = func(st *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
				id := i.id
				return l.GetPublicData("u", &id, st)
			}
		} else {
			var st db.Storage = db.NewMemoryStorage()
			if kind == "http level" {
				b := newLevel()
				defer b.Close()
				st = b.Storage()
			}
			jitter := rapid.SampledFrom([]int{0, 1, 2}).Draw(t, "jitter")
			st = faultdb.NewJitter(st, jitter, rapid.Uint64().Draw(t, "jitter seed"))
			rec.Label("jitter %d", jitter)
			w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: byte(cache)}, st)
			if err != nil {
				t.Fatal(err)
			}
			publish = func(v *version) error { return w.Publish(&core.ID{}, i.data(v)) }
			read = func(st *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
				b, err := w.GetPublicData(st)
				if err != nil {
					return nil, err
				}
				pd, err := idenpuboffchain.NewPublicDataFromBlobs(b)
				if err != nil {
					return nil, fmt.Errorf("DAMAGED: %w", err)
				}
				return pd, nil
			}
		}
		type op struct {
			v    *version
			what int // 0 publish, 1 read it, 2 read the last
		}
		total, publishers := 0, 0
		var plan [][]op
		for g := rapid.IntRange(2, 4).Draw(t, "goroutines"); g > 0; g-- {
			var os []op
			pub := 0
			for n := rapid.IntRange(1, 8).Draw(t, "ops"); n > 0; n-- {
				o := op{i.vs[rapid.IntRange(0, len(i.vs)-1).Draw(t, "v")], rapid.IntRange(0, 2).Draw(t, "what")}
				if o.what == 0 {
					pub++
				}
				os = append(os, o)
			}
			total += pub
			if pub > 0 {
				publishers++
			}
			plan = append(plan, os)
		}
		// what happened when, by a common clock
		type span struct {
			v          *version
			start, end int64
		}
		var clock int64
		var mu sync.Mutex
		var spans []*span
		var bad error
		report := func(format string, a ...interface{}) {
			mu.Lock()
			if bad == nil {
				bad = fmt.Errorf(format, a...)
			}
			mu.Unlock()
		}
		// kept: fewer publications than the cache has places may have come
		// after s before the time
		kept := func(s *span, before int64) bool {
			n := 0
			for _, r := range spans {
				if r != s && r.start < before && r.end > s.start {
					n++
				}
			}
			return n < cache
		}
		vh.Within("publishing and reading concurrently", func() {
			var wg sync.WaitGroup
			for _, os := range plan {
				wg.Add(1)
				go func(os []op) {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							report("panic: %v", p)
						}
					}()
					for _, o := range os {
						if o.what == 0 {
							s := &span{v: o.v, start: atomic.AddInt64(&clock, 1), end: 1 << 62}
							mu.Lock()
							spans = append(spans, s)
							mu.Unlock()
							if err := publish(o.v); err != nil {
								report("publishing: %v", err)
								return
							}
							mu.Lock()
							s.end = atomic.AddInt64(&clock, 1)
							mu.Unlock()
							continue
						}
						begin := atomic.AddInt64(&clock, 1)
						var st *merkletree.Hash
						if o.what == 1 {
							st = mtx.Hash(o.v.state)
						}
						pd, err := read(st)
						end := atomic.AddInt64(&clock, 1)
						mu.Lock()
						var must, may, stale bool
						for _, s := range spans {
							if st != nil && s.v.state != o.v.state {
								continue
							}
							must = must || s.end < begin && (st == nil || kept(s, end))
							may = may || s.start < end
						}
						if err == nil && st == nil {
							// some publication of this version was not
							// followed by a whole other one
							stale = true
							for _, s := range spans {
								if s.v.state != H(*pd.IdenState) || s.start > end {
									continue
								}
								ok := true
								for _, r := range spans {
									if r.start > s.end && r.end < begin {
										ok = false
									}
								}
								stale = stale && !ok
							}
						}
						mu.Unlock()
						if err != nil {
							if must || bytes.HasPrefix([]byte(err.Error()), []byte("DAMAGED")) {
								report("reading %v: %v", st, err)
							}
							continue
						}
						if !may || stale {
							report("reading %v gives a state that is not there (%v, %v): %v", st, may, stale, pd.IdenState)
							continue
						}
						v := o.v
						if st == nil {
							for _, x := range i.vs {
								if x.state == H(*pd.IdenState) {
									v = x
								}
							}
						}
						if err := same(pd, v); err != nil {
							report("reading %v: %v", st, err)
						}
					}
				}(os)
			}
			wg.Wait()
		})
		if bad != nil {
			t.Fatalf("%s, cache %d: %v", kind, cache, bad)
		}
		// at the end, all that must have been kept
		for _, s := range spans {
			if !kept(s, 1<<62) {
				continue
			}
			pd, err := read(mtx.Hash(s.v.state))
			if err == nil {
				err = same(pd, s.v)
			}
			if err != nil {
				t.Fatalf("%s, cache %d, %d publications: at the end: reading %v: %v", kind, cache, total, s.v, err)
			}
		}
		rec.Label("%s", kind)
		rec.Case(publishers > 1, "%s cache %d, %d goroutines, %d publications of %d versions, clock %d", kind, cache, len(plan), total, len(i.vs), clock)
	})
}

// TestP03_Hot: a small cache whose places are written again and again while
// others read them.
func TestP03_Hot(t *testing.T) {
	rec := vh.NewRec("P03_Hot", "1 or 2 goroutines that publish 10 to 40 times to a web place that keeps 1 to 3 publications, in a storage that takes its time, while 2 read single states and the last one all the time; every answer is one whole publication or, for a state that was named, not found; non-trivial: at least 20 answers")
	vh.Check(t, 64, 1600, func(t *rapid.T) {
		i := newIden(5)
		for n := rapid.IntRange(2, 5).Draw(t, "versions"); n > 0; n-- {
			i.grow(t)
		}
		kind := rapid.SampledFrom([]string{"mem", "mem", "mem", "level"}).Draw(t, "kind")
		var st db.Storage = db.NewMemoryStorage()
		if kind == "level" {
			b := newLevel()
			defer b.Close()
			st = b.Storage()
		}
		jitter := rapid.SampledFrom([]int{2, 1}).Draw(t, "jitter")
		st = faultdb.NewJitter(st, jitter, rapid.Uint64().Draw(t, "jitter seed"))
		cache := rapid.SampledFrom([]byte{1, 2, 3}).Draw(t, "cache")
		w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: cache}, st)
		if err != nil {
			t.Fatal(err)
		}
		if err := w.Publish(&core.ID{}, i.data(i.vs[0])); err != nil {
			t.Fatalf("publishing: %v", err)
		}
		publishers, each := rapid.IntRange(1, 2).Draw(t, "publishers"), rapid.SampledFrom([]int{10, 40}).Draw(t, "each")
		var mu sync.Mutex
		var bad error
		report := func(format string, a ...interface{}) {
			mu.Lock()
			if bad == nil {
				bad = fmt.Errorf(format, a...)
			}
			mu.Unlock()
		}
		var publishing int64 = int64(publishers)
		var answers int64
		checked := map[string]bool{} // answers seen before
		vh.Within("publishing and reading one place", func() {
			var wg sync.WaitGroup
			goes := func(f func()) {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							report("panic: %v", p)
						}
					}()
					f()
				}()
			}
			for p := 0; p < publishers; p++ {
				p := p
				goes(func() {
					defer atomic.AddInt64(&publishing, -1)
					for n := 0; n < each; n++ {
						if err := w.Publish(&core.ID{}, i.data(i.vs[(n*(p+1)+p)%len(i.vs)])); err != nil {
							report("publishing: %v", err)
							return
						}
					}
				})
			}
			for r := 0; r < 2; r++ {
				r := r
				goes(func() {
					for n := r; atomic.LoadInt64(&publishing) > 0 && n < 1000; n++ {
						var st *merkletree.Hash
						v := i.vs[(n/2)%len(i.vs)]
						if n%2 == 0 {
							st = mtx.Hash(v.state)
						}
						b, err := w.GetPublicData(st)
						if err == writerhttp.ErrIdenStateNotFound && st != nil {
							continue
						}
						if err != nil {
							report("reading %v: %v", st, err)
							return
						}
						atomic.AddInt64(&answers, 1)
						if st != nil && H(b.IdenState) != v.state {
							report("reading %v gives %v", st, b.IdenState)
							return
						}
						for _, x := range i.vs {
							if x.state == H(b.IdenState) {
								v = x
							}
						}
						key := fmt.Sprintf("%x %x %x %x %x %x", b.IdenState, b.ClaimsTreeRoot, b.RevocationsTreeRoot, b.RootsTreeRoot, b.RevocationsTree, b.RootsTree)
						mu.Lock()
						known := checked[key]
						checked[key] = true
						mu.Unlock()
						if known {
							continue
						}
						pd, err := idenpuboffchain.NewPublicDataFromBlobs(b)
						if err == nil {
							err = same(pd, v)
						}
						if err != nil {
							report("reading %v: %v", st, err)
							return
						}
					}
				})
			}
			wg.Wait()
		})
		if bad != nil {
			t.Fatalf("%s, cache %d, %d publishers: %v", kind, cache, publishers, bad)
		}
		rec.LabelIf(publishers > 1, "2 publishers")
		rec.Case(answers >= 20, "%s cache %d jitter %d, %d x %d publications", kind, cache, jitter, publishers, each)
	})
}
