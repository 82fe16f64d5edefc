package pub

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"testing"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/readerhttp"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"

	"verifharness/faultdb"
	"verifharness/mtx"
	"verifharness/vh"
	"verifharness/world"
)

type H = mtx.H

func TestMain(m *testing.M) { vh.Main(m) }

// version is what an identity has at one moment.
type version struct {
	state, clr, rer, ror H
	revs, roots          mtx.Set
}

func (v *version) String() string {
	return fmt.Sprintf("{%x.. %d revocations %d roots}", v.state[:4], len(v.revs), len(v.roots))
}

// iden is an identity whose trees grow.
type iden struct {
	id          core.ID
	revs, roots *merkletree.MerkleTree
	rs, os      mtx.Set
	vs          []*version // every version published or ready to
}

func newIden(n byte) *iden {
	i := &iden{rs: mtx.Set{}, os: mtx.Set{}}
	i.id = world.IDOf(H{9: n, 17: n ^ 0x5a}, core.ID{n % 3, 0})
	var err error
	i.revs, err = merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	vh.Must(err)
	i.roots, err = merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	vh.Must(err)
	return i
}

// grow adds entries and makes a version.
func (i *iden) grow(t *rapid.T) *version {
	for _, x := range []struct {
		mt *merkletree.MerkleTree
		s  mtx.Set
	}{{i.revs, i.rs}, {i.roots, i.os}} {
		for _, e := range mtx.Cluster(0, 4).Draw(t, "entries") {
			hi := e.Hi()
			if _, ok := x.s[hi]; ok || !x.s.Fits(hi, 140) {
				continue
			}
			vh.Must(x.mt.AddEntry(e.E()))
			x.s[hi] = e
		}
	}
	v := &version{revs: i.rs.Clone(), roots: i.os.Clone()}
	v.clr, v.rer, v.ror = mtx.Elem(false).Draw(t, "claims root"), v.revs.Root(), v.roots.Root()
	v.state = mtx.MustPoseidon(v.clr, v.rer, v.ror)
	i.vs = append(i.vs, v)
	return v
}

// data is a version as the code under test takes it, on the live trees.
func (i *iden) data(v *version) *idenpuboffchain.PublicData {
	return &idenpuboffchain.PublicData{IdenState: mtx.Hash(v.state), ClaimsTreeRoot: mtx.Hash(v.clr),
		RevocationsTreeRoot: mtx.Hash(v.rer), RootsTreeRoot: mtx.Hash(v.ror), RevocationsTree: i.revs, RootsTree: i.roots}
}

func hashIs(h *merkletree.Hash, want H) bool { return h != nil && H(*h) == want }

// check compares what was read with a version.
func check(t *rapid.T, how string, pd *idenpuboffchain.PublicData, v *version) {
	if !hashIs(pd.IdenState, v.state) || !hashIs(pd.ClaimsTreeRoot, v.clr) || !hashIs(pd.RevocationsTreeRoot, v.rer) || !hashIs(pd.RootsTreeRoot, v.ror) {
		t.Fatalf("%s: the state and roots read are %v %v %v %v, want %x %x %x %x", how, pd.IdenState.Hex(), pd.ClaimsTreeRoot.Hex(), pd.RevocationsTreeRoot.Hex(), pd.RootsTreeRoot.Hex(), v.state, v.clr, v.rer, v.ror)
	}
	for _, x := range []struct {
		what string
		mt   *merkletree.MerkleTree
		s    mtx.Set
		root H
	}{{"revocations", pd.RevocationsTree, v.revs, v.rer}, {"roots", pd.RootsTree, v.roots, v.ror}} {
		if x.mt == nil || H(*x.mt.RootKey()) != x.root {
			t.Fatalf("%s: the %s tree read has another root", how, x.what)
		}
		got, err := world.Leaves(x.mt, nil)
		if err != nil || !got.Equal(x.s) {
			t.Fatalf("%s: the %s tree read has the entries %v (%v), want %v", how, x.what, got, err, x.s)
		}
		hi := mtx.CraftedHi(x.s).Draw(t, "hi")
		p, err := x.mt.GenerateProof(mtx.Hash(hi), nil)
		if err != nil {
			t.Fatalf("%s: no proof from the %s tree: %v", how, x.what, err)
		}
		if want := x.s.Proof(hi).Bytes(); !bytes.Equal(p.Bytes(), want) {
			t.Fatalf("%s: the proof of %x from the %s tree is %x, want %x", how, hi, x.what, p.Bytes(), want)
		}
	}
}

// server gives the pages of several identities at one address.
type server struct {
	mu  sync.Mutex
	url string
	ws  map[string]*writerhttp.IdenPubOffChainWriteHttp
	bad string
}

func newServer() *server {
	s := &server{ws: map[string]*writerhttp.IdenPubOffChainWriteHttp{}}
	s.url = world.ServeFunc(s.serve)
	return s
}

func (s *server) serve(rw http.ResponseWriter, r *http.Request) {
	f := strings.Split(strings.Trim(r.URL.Path, "/"), "/")[1:]
	fail := func(code int, err string) {
		rw.Header().Set("Content-Type", "application/json")
		rw.WriteHeader(code)
		_ = json.NewEncoder(rw).Encode(map[string]string{"error": err})
	}
	var st *merkletree.Hash
	switch {
	case len(f) == 2 && f[1] == "laststate":
	case len(f) == 3 && f[1] == "state":
		st = &merkletree.Hash{}
		if err := st.UnmarshalText([]byte(f[2])); err != nil {
			fail(400, err.Error())
			return
		}
	default:
		fail(404, "no such page")
		return
	}
	s.mu.Lock()
	w := s.ws[f[0]]
	s.mu.Unlock()
	if w == nil {
		fail(404, "no such identity")
		return
	}
	b, err := w.GetPublicData(st)
	if err != nil {
		fail(500, err.Error())
		return
	}
	rw.Header().Set("Content-Type", "application/json")
	_ = json.NewEncoder(rw).Encode(b)
}

// TestP01_Http: the web publisher keeps the last states and the reader gets them.
func TestP01_Http(t *testing.T) {
	rec := vh.NewRec("P01_Http", "1 or 2 identities with growing trees, publications of new and old versions into caches of 1 to 8 and 255 states, readings of the last, of kept, dropped and unknown states directly and over loopback HTTP, restarts, publications whose commit fails; non-trivial: a state was dropped from the cache or re-read after a restart")
	vh.Check(t, 900, 24000, func(t *rapid.T) {
		type place struct {
			*iden
			box  *faultdb.Box
			f    *faultdb.Storage
			w    *writerhttp.IdenPubOffChainWriteHttp
			pubs []*version
			n    int
		}
		srv := newServer()
		defer world.Forget(srv.url)
		rd := readerhttp.NewIdenPubOffChainHttp()
		var ps []*place
		for k := rapid.IntRange(1, 2).Draw(t, "identities"); k > 0; k-- {
			p := &place{iden: newIden(byte(k))}
			p.box = faultdb.NewBox(rapid.SampledFrom(faultdb.Kinds).Draw(t, "storage"), []byte("off"))
			defer p.box.Close()
			p.f = faultdb.New(p.box.Storage())
			p.n = rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 255}).Draw(t, "cache")
			cfg := &writerhttp.Config{CacheLen: byte(p.n), Url: srv.url}
			if p.n == 4 {
				cfg = writerhttp.NewConfigDefault(srv.url)
			}
			var err error
			if p.w, err = writerhttp.NewIdenPubOffChainWriteHttp(cfg, p.f); err != nil {
				t.Fatalf("a new place: %v", err)
			}
			srv.ws[p.id.String()] = p.w
			ps = append(ps, p)
		}
		if _, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{}, db.NewMemoryStorage()); err == nil {
			t.Fatalf("a place that keeps no state is made")
		}
		read := func(p *place, st *merkletree.Hash) (pd *idenpuboffchain.PublicData, how string, err error) {
			if rapid.IntRange(0, 2).Draw(t, "http") == 0 {
				id := p.id
				pd, err = rd.GetPublicData(p.w.Url(), &id, st)
				return pd, "over HTTP", err
			}
			b, err := p.w.GetPublicData(st)
			if err != nil {
				if pd != nil {
					t.Fatalf("an error with data")
				}
				return nil, "directly", err
			}
			pd, err = idenpuboffchain.NewPublicDataFromBlobs(b)
			if err != nil {
				t.Fatalf("what was published does not read: %v", err)
			}
			return pd, "directly", nil
		}
		var log []string
		dropped, restarted, failed := false, false, false
		for n := rapid.IntRange(1, 24).Draw(t, "steps"); n > 0; n-- {
			p := ps[rapid.IntRange(0, len(ps)-1).Draw(t, "who")]
			kept := p.pubs
			if len(kept) > p.n {
				kept, dropped = kept[len(kept)-p.n:], true
			}
			has := func(st H) bool {
				for _, v := range kept {
					if v.state == st {
						return true
					}
				}
				return false
			}
			switch op := rapid.SampledFrom([]string{"publish", "publish", "publish", "publish", "grow", "old", "last", "state", "state", "unknown", "restart", "fail"}).Draw(t, "op"); op {
			case "grow":
				p.grow(t) // a version that is not published
			case "publish", "fail":
				v := p.grow(t)
				d := p.data(v)
				if op == "fail" {
					p.f.P.Reset()
					p.f.P.FailAt = rapid.IntRange(1, 4).Draw(t, "failat")
					err := p.w.Publish(&p.id, d)
					hit := p.f.P.Fired
					p.f.P.Reset()
					log = append(log, fmt.Sprintf("fail %v", hit))
					if hit && err == nil {
						t.Fatalf("the storage failed and the publication reports success")
					}
					if !hit && err != nil {
						t.Fatalf("publishing: %v", err)
					}
					if hit {
						failed = true
						break
					}
				} else if err := p.w.Publish(&p.id, d); err != nil {
					t.Fatalf("publishing: %v", err)
				}
				p.pubs = append(p.pubs, v)
				log = append(log, fmt.Sprintf("%v", v))
				if rapid.Bool().Draw(t, "scribble") {
					// the caller goes on with its own data
					d.IdenState[3]++
					d.ClaimsTreeRoot[5]++
					*d.RevocationsTreeRoot, *d.RootsTreeRoot = merkletree.Hash{7}, merkletree.Hash{8}
				}
			case "old":
				if len(p.vs) == 0 {
					break
				}
				v := p.vs[rapid.IntRange(0, len(p.vs)-1).Draw(t, "version")]
				if err := p.w.Publish(&p.id, p.data(v)); err != nil {
					t.Fatalf("publishing an older version: %v", err)
				}
				p.pubs = append(p.pubs, v)
				log = append(log, "old")
			case "last":
				pd, how, err := read(p, nil)
				if len(p.pubs) == 0 {
					if err == nil {
						t.Fatalf("%s: there is a last state before any was published", how)
					}
					break
				}
				if err != nil {
					t.Fatalf("%s: reading the last state: %v", how, err)
				}
				check(t, how+" last", pd, p.pubs[len(p.pubs)-1])
			case "state":
				if len(p.vs) == 0 {
					break
				}
				v := p.vs[rapid.IntRange(0, len(p.vs)-1).Draw(t, "version")]
				if len(kept) > 0 && rapid.Bool().Draw(t, "kept") {
					v = kept[rapid.IntRange(0, len(kept)-1).Draw(t, "which")]
				}
				if has(v.state) && rapid.IntRange(0, 3).Draw(t, "failing read") == 0 {
					p.f.P.Reset()
					p.f.P.FailAt = rapid.IntRange(1, 12).Draw(t, "failat")
					b, err := p.w.GetPublicData(mtx.Hash(v.state))
					hit := p.f.P.Fired
					p.f.P.Reset()
					switch {
					case errors.Is(err, writerhttp.ErrIdenStateNotFound):
						t.Fatalf("a state among the last %d is said not to be found when the storage fails", p.n)
					case !hit && err != nil:
						t.Fatalf("reading a state among the last %d: %v", p.n, err)
					case err == nil:
						pd, err := idenpuboffchain.NewPublicDataFromBlobs(b)
						if err != nil {
							t.Fatalf("what was published does not read when the storage fails: %v", err)
						}
						check(t, "with a failing storage", pd, v)
					}
					rec.LabelIf(hit, "failed reading")
					break
				}
				pd, how, err := read(p, mtx.Hash(v.state))
				if !has(v.state) {
					if err == nil {
						t.Fatalf("%s: state %v is read, but is not among the last %d published", how, v, p.n)
					}
					if how == "directly" && !errors.Is(err, writerhttp.ErrIdenStateNotFound) {
						t.Fatalf("a state that is not kept gives the error %v", err)
					}
					rec.Label("not kept")
					break
				}
				if err != nil {
					t.Fatalf("%s: reading a state among the last %d: %v", how, p.n, err)
				}
				check(t, how, pd, v)
				rec.Label("kept")
			case "unknown":
				st := H{rapid.Byte().Draw(t, "st")}
				if len(p.pubs) > 0 && rapid.Bool().Draw(t, "near") {
					st = p.pubs[len(p.pubs)-1].state
					st[rapid.IntRange(0, 31).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				}
				q := ps[rapid.IntRange(0, len(ps)-1).Draw(t, "other")]
				if q != p && len(q.pubs) > 0 {
					st = q.pubs[len(q.pubs)-1].state
				}
				if has(st) {
					break
				}
				_, how, err := read(p, mtx.Hash(st))
				if err == nil || how == "directly" && !errors.Is(err, writerhttp.ErrIdenStateNotFound) {
					t.Fatalf("%s: unknown state %x: error %v", how, st, err)
				}
			case "restart":
				p.box.Reopen()
				p.f = faultdb.New(p.box.Storage())
				w, err := writerhttp.LoadIdenPubOffChainWriteHttp(p.f)
				if err != nil {
					t.Fatalf("loading the place: %v", err)
				}
				p.w = w
				if w.Url() != srv.url {
					t.Fatalf("the address after a restart is %q", w.Url())
				}
				srv.mu.Lock()
				srv.ws[p.id.String()] = w
				srv.mu.Unlock()
				restarted = restarted || len(p.pubs) > 0
				log = append(log, "restart")
			}
		}
		// at the end, all of it
		for _, p := range ps {
			kept := p.pubs
			if len(kept) > p.n {
				kept = kept[len(kept)-p.n:]
			}
			for _, v := range kept {
				pd, how, err := read(p, mtx.Hash(v.state))
				if err != nil {
					t.Fatalf("%s, at the end: reading a state among the last %d of %d: %v", how, p.n, len(p.pubs), err)
				}
				check(t, how+", at the end", pd, v)
			}
		}
		rec.LabelIf(dropped, "dropped")
		rec.LabelIf(restarted, "restarted")
		rec.LabelIf(failed, "failed publication")
		rec.Case(dropped || restarted, "%d identities, cache %d: %s", len(ps), ps[0].n, strings.Join(log, " "))
	})
}

// TestP01_Large: a cache of many states, filled more than once.
func TestP01_Large(t *testing.T) {
	rec := vh.NewRec("P01_Large", "caches of 1 to 255 states into which up to 3 times as many states are published; each kept, each dropped and the last state are read at chosen moments; non-trivial: more states were published than are kept")
	vh.Check(t, 48, 1200, func(t *rapid.T) {
		i := newIden(9)
		base := i.grow(t)
		n := rapid.SampledFrom([]int{255, 101, 17, 2, 16, 128, 129, 200, 254, 100, 64}).Draw(t, "cache")
		total := rapid.SampledFrom([]int{1, 0, 2, 4, 6}).Draw(t, "halves") * n / 2
		total += rapid.IntRange(-1, 3).Draw(t, "more")
		st := db.NewMemoryStorage()
		w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: byte(n), Url: "u"}, st)
		if err != nil {
			t.Fatal(err)
		}
		var vs []*version
		look := func() {
			for k, v := range vs {
				b, err := w.GetPublicData(mtx.Hash(v.state))
				if k < len(vs)-n {
					if err != writerhttp.ErrIdenStateNotFound {
						t.Fatalf("the state %d of %d is not among the last %d, but reading it gives the error %v", k, len(vs), n, err)
					}
					continue
				}
				if err != nil {
					t.Fatalf("reading the state %d of %d of the last %d: %v", k, len(vs), n, err)
				}
				if H(b.IdenState) != v.state || H(b.ClaimsTreeRoot) != v.clr || H(b.RootsTreeRoot) != v.ror || H(b.RevocationsTreeRoot) != v.rer {
					t.Fatalf("reading the state %d of %d of the last %d gives another one", k, len(vs), n)
				}
			}
			if len(vs) == 0 {
				return
			}
			if b, err := w.GetPublicData(nil); err != nil || H(b.IdenState) != vs[len(vs)-1].state || H(b.ClaimsTreeRoot) != vs[len(vs)-1].clr {
				t.Fatalf("the last of %d states is not read as such: %v", len(vs), err)
			}
		}
		seed := rapid.Uint16().Draw(t, "seed")
		for k := 0; k < total; k++ {
			v := *base
			v.clr = H{byte(k), byte(k >> 8), byte(seed), byte(seed >> 8)}
			v.state = mtx.MustPoseidon(v.clr, v.rer, v.ror)
			if err := w.Publish(&i.id, i.data(&v)); err != nil {
				t.Fatalf("publishing: %v", err)
			}
			vs = append(vs, &v)
			if k == total/3 {
				look()
				if w, err = writerhttp.LoadIdenPubOffChainWriteHttp(st); err != nil {
					t.Fatalf("loading the place: %v", err)
				}
			}
		}
		look()
		rec.Label("cache %d", n)
		rec.Case(len(vs) > n, "cache %d, %d published", n, len(vs))
	})
}

// TestP01_Local: the local place keeps every state of every identity.
func TestP01_Local(t *testing.T) {
	rec := vh.NewRec("P01_Local", "1 to 3 identities with growing trees publish to one local place, all states ever published and others are read at once and later; non-trivial: a state is read after its trees grew")
	vh.Check(t, 900, 24000, func(t *rapid.T) {
		url := rapid.SampledFrom([]string{"http://foo.bar", "", "x"}).Draw(t, "url")
		l := local.NewIdenPubOffChain(url)
		if l.Url() != url {
			t.Fatalf("the address is %q, not %q", l.Url(), url)
		}
		var is []*iden
		pubs := map[*iden][]*version{}
		for k := rapid.IntRange(1, 3).Draw(t, "identities"); k > 0; k-- {
			is = append(is, newIden(byte(k)))
		}
		old := 0
		var log []string
		for n := rapid.IntRange(1, 16).Draw(t, "steps"); n > 0; n-- {
			k := rapid.IntRange(0, len(is)-1).Draw(t, "who")
			i := is[k]
			switch rapid.SampledFrom([]string{"publish", "publish", "grow", "old", "last", "state", "unknown", "url"}).Draw(t, "op") {
			case "grow":
				i.grow(t)
			case "publish", "old":
				v := i.grow(t)
				if rapid.IntRange(0, 3).Draw(t, "oldversion") == 0 {
					v = i.vs[rapid.IntRange(0, len(i.vs)-1).Draw(t, "version")]
				}
				id := i.id
				d := i.data(v)
				if err := l.Publish(&id, d); err != nil {
					t.Fatalf("publishing: %v", err)
				}
				id = core.ID{}
				if rapid.Bool().Draw(t, "scribble") {
					// the caller goes on with its own data
					*d.IdenState, *d.ClaimsTreeRoot = merkletree.Hash{5}, merkletree.Hash{6}
					*d.RevocationsTreeRoot, *d.RootsTreeRoot = merkletree.Hash{7}, merkletree.Hash{8}
				}
				pubs[i] = append(pubs[i], v)
				log = append(log, fmt.Sprintf("%d:%v", k, v))
			case "last":
				pd, err := l.GetPublicData(url, &i.id, nil)
				ps := pubs[i]
				if len(ps) == 0 {
					if err == nil {
						t.Fatalf("there is a last state before any was published")
					}
					break
				}
				if err != nil {
					t.Fatalf("reading the last state: %v", err)
				}
				check(t, "last", pd, ps[len(ps)-1])
				pd.IdenState[0]++ // what was read is the reader's
				pd.ClaimsTreeRoot[1]++
			case "state":
				if len(i.vs) == 0 {
					break
				}
				v := i.vs[rapid.IntRange(0, len(i.vs)-1).Draw(t, "version")]
				pub := false
				for _, x := range pubs[i] {
					pub = pub || x.state == v.state
				}
				pd, err := l.GetPublicData(url, &i.id, mtx.Hash(v.state))
				if pub != (err == nil) {
					t.Fatalf("state %v, published %v: error %v", v, pub, err)
				}
				if pub {
					check(t, "state", pd, v)
					pd.RootsTreeRoot[0]++
					pd.RevocationsTreeRoot[1]++
					pd.ClaimsTreeRoot[2]++
					pd.IdenState[3]++
					if v != i.vs[len(i.vs)-1] {
						old++
					}
				}
			case "unknown":
				j := is[rapid.IntRange(0, len(is)-1).Draw(t, "other")]
				st := H{rapid.Byte().Draw(t, "st")}
				if j != i && len(pubs[j]) > 0 {
					st = pubs[j][len(pubs[j])-1].state
				}
				known := false
				for _, x := range pubs[i] {
					known = known || x.state == st
				}
				if _, err := l.GetPublicData(url, &i.id, mtx.Hash(st)); err == nil && !known {
					t.Fatalf("a state the identity did not publish is read: %x", st)
				}
			case "url":
				if _, err := l.GetPublicData(url+"z", &i.id, nil); err == nil {
					t.Fatalf("data from another address")
				}
			}
		}
		rec.LabelIf(old > 0, "read after growth")
		rec.Case(old > 0, "%d identities: %s", len(is), strings.Join(log, " "))
	})
}

func newLevel() *faultdb.Box { return faultdb.NewBox("level", nil) }
