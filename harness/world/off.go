package world

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/readerhttp"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"

	"verifharness/mtx"
	"verifharness/vh"
)

// Pub is one publication.
type Pub struct {
	ID                   core.ID
	State, Clr, Rer, Ror H
	Revs, Roots          mtx.Set
	Blobs                idenpuboffchain.PublicDataBlobs
}

// Off records what an identity publishes and hands it to a real place.
type Off struct {
	mu     sync.Mutex
	URL    string
	writer idenpuboffchain.IdenPubOffChainWriter
	reader idenpuboffchain.IdenPubOffChainReader
	Pubs   []*Pub
	// Fault decides whether a publication fails, before or after it happens.
	Fault func() (before, after bool)
	// CacheLen is how many publications the place keeps, when it is "http".
	CacheLen int
	// Stale is a state whose data is answered whichever is asked for.
	Stale *H
	// Bad is the first publication that contradicts itself.
	Bad string
}

var _ idenpuboffchain.IdenPubOffChainWriter = (*Off)(nil)
var _ idenpuboffchain.IdenPubOffChainReader = (*Off)(nil)

// OffKinds are the places to publish to.
var OffKinds = []string{"record", "local", "http"}

// NewOff makes a place of a kind.
func NewOff(kind string, cacheLen byte) *Off {
	o := &Off{URL: "https://issuer.example/data", CacheLen: int(cacheLen)}
	switch kind {
	case "local":
		l := local.NewIdenPubOffChain(o.URL)
		o.writer, o.reader = l, l
	case "http":
		w, url := Serve(func(url string) *writerhttp.IdenPubOffChainWriteHttp {
			w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: cacheLen, Url: url}, db.NewMemoryStorage())
			vh.Must(err)
			return w
		})
		o.URL, o.writer, o.reader = url, w, readerhttp.NewIdenPubOffChainHttp()
	}
	return o
}

// Url is where the data is published.
func (o *Off) Url() string { return o.URL }

// Leaves are the entries of a tree under a root.
func Leaves(mt *merkletree.MerkleTree, root *merkletree.Hash) (s mtx.Set, err error) {
	s = mtx.Set{}
	err = mt.Walk(root, func(n *merkletree.Node) {
		if n.Type == merkletree.NodeTypeLeaf {
			e := mtx.FromE(&n.Entry.Data)
			s[e.Hi()] = e
		}
	})
	return s, err
}

// Publish records a publication.
func (o *Off) Publish(id *core.ID, pd *idenpuboffchain.PublicData) error {
	o.mu.Lock()
	defer o.mu.Unlock()
	var before, after bool
	if o.Fault != nil {
		before, after = o.Fault()
	}
	if before {
		return ErrInjected
	}
	p := &Pub{ID: *id, State: H(*pd.IdenState), Clr: H(*pd.ClaimsTreeRoot), Rer: H(*pd.RevocationsTreeRoot), Ror: H(*pd.RootsTreeRoot)}
	p.Blobs = idenpuboffchain.PublicDataBlobs{IdenState: *pd.IdenState, ClaimsTreeRoot: *pd.ClaimsTreeRoot, RevocationsTreeRoot: *pd.RevocationsTreeRoot, RootsTreeRoot: *pd.RootsTreeRoot}
	var err error
	for _, x := range []struct {
		t    *merkletree.MerkleTree
		r    *merkletree.Hash
		s    *mtx.Set
		blob *[]byte
	}{{pd.RevocationsTree, pd.RevocationsTreeRoot, &p.Revs, &p.Blobs.RevocationsTree}, {pd.RootsTree, pd.RootsTreeRoot, &p.Roots, &p.Blobs.RootsTree}} {
		if *x.s, err = Leaves(x.t, x.r); err != nil {
			return err
		}
		if x.s.Root() != H(*x.r) {
			o.Bad = fmt.Sprintf("published tree of root %v has the entries %v", x.r.Hex(), *x.s)
		}
		w := &bytes.Buffer{}
		if err = x.t.DumpTree(w, x.r); err != nil {
			return err
		}
		*x.blob = w.Bytes()
	}
	if mtx.MustPoseidon(p.Clr, p.Rer, p.Ror) != p.State {
		o.Bad = fmt.Sprintf("published state %x is not the hash of the published roots", p.State)
	}
	if o.writer != nil {
		if err := o.writer.Publish(id, pd); err != nil {
			return err
		}
	}
	o.Pubs = append(o.Pubs, p)
	if after {
		return ErrInjected
	}
	return nil
}

// Find is the last publication of a state.
func (o *Off) Find(id core.ID, st H) *Pub {
	o.mu.Lock()
	defer o.mu.Unlock()
	for i := len(o.Pubs) - 1; i >= 0; i-- {
		if o.Pubs[i].ID == id && o.Pubs[i].State == st {
			return o.Pubs[i]
		}
	}
	return nil
}

// GetPublicData reads a publication.
func (o *Off) GetPublicData(url string, id *core.ID, st *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
	if o.Stale != nil {
		st = mtx.Hash(*o.Stale)
	}
	if o.reader != nil {
		return o.reader.GetPublicData(url, id, st)
	}
	if url != o.URL {
		return nil, fmt.Errorf("nothing at %q", url)
	}
	var p *Pub
	if st == nil {
		o.mu.Lock()
		if len(o.Pubs) > 0 {
			p = o.Pubs[len(o.Pubs)-1]
		}
		o.mu.Unlock()
	} else {
		p = o.Find(*id, H(*st))
	}
	if p == nil {
		return nil, fmt.Errorf("state not published")
	}
	b := p.Blobs
	return idenpuboffchain.NewPublicDataFromBlobs(&b)
}

var (
	srvMu sync.Mutex
	srv   *httptest.Server
	pages = map[string]*writerhttp.IdenPubOffChainWriteHttp{}
	blobs = map[string]*idenpuboffchain.PublicDataBlobs{}
	funcs = map[string]http.HandlerFunc{}
	nPage int
)

func start() string {
	if srv == nil {
		srv = httptest.NewServer(http.HandlerFunc(serve))
	}
	nPage++
	return fmt.Sprintf("p%d", nPage)
}

// Serve puts a writer on the web server and returns its address.
func Serve(mk func(url string) *writerhttp.IdenPubOffChainWriteHttp) (*writerhttp.IdenPubOffChainWriteHttp, string) {
	srvMu.Lock()
	defer srvMu.Unlock()
	n := start()
	url := srv.URL + "/" + n
	w := mk(url)
	pages[n] = w
	return w, url
}

// ServeBlobs answers every question at the returned address with b.
func ServeBlobs(b *idenpuboffchain.PublicDataBlobs) string {
	srvMu.Lock()
	defer srvMu.Unlock()
	n := start()
	blobs[n] = b
	return srv.URL + "/" + n
}

// ServeFunc hands every question at the returned address to f.
func ServeFunc(f http.HandlerFunc) string {
	srvMu.Lock()
	defer srvMu.Unlock()
	n := start()
	funcs[n] = f
	return srv.URL + "/" + n
}

// Forget frees an address.
func Forget(url string) {
	srvMu.Lock()
	defer srvMu.Unlock()
	n := url[strings.LastIndexByte(url, '/')+1:]
	delete(pages, n)
	delete(blobs, n)
	delete(funcs, n)
}

func serve(rw http.ResponseWriter, r *http.Request) {
	fail := func(code int, err string) {
		rw.Header().Set("Content-Type", "application/json")
		rw.WriteHeader(code)
		b, _ := json.Marshal(map[string]string{"error": err})
		_, _ = rw.Write(b)
	}
	// /page/id/state/hex or /page/id/laststate
	f := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	srvMu.Lock()
	w, b, fn := pages[f[0]], blobs[f[0]], funcs[f[0]]
	srvMu.Unlock()
	if fn != nil {
		fn(rw, r)
		return
	}
	if len(f) < 3 {
		fail(404, "no such page")
		return
	}
	var err error
	switch {
	case b != nil:
	case w == nil:
		fail(404, "no such page")
		return
	case len(f) == 3 && f[2] == "laststate":
		b, err = w.GetPublicData(nil)
	case len(f) == 4 && f[2] == "state":
		var h merkletree.Hash
		if err = h.UnmarshalText([]byte(f[3])); err == nil {
			b, err = w.GetPublicData(&h)
		}
	default:
		fail(404, "no such page")
		return
	}
	if err != nil {
		fail(400, err.Error())
		return
	}
	rw.Header().Set("Content-Type", "application/json")
	_ = json.NewEncoder(rw).Encode(b)
}

// Available tells whether a state must be readable: it was published, and is
// among the last ones when only those are kept.
func (o *Off) Available(id core.ID, st H) bool {
	o.mu.Lock()
	defer o.mu.Unlock()
	from := 0
	if _, ok := o.writer.(*writerhttp.IdenPubOffChainWriteHttp); ok && len(o.Pubs) > o.CacheLen {
		from = len(o.Pubs) - o.CacheLen
	}
	for _, p := range o.Pubs[from:] {
		if p.ID == id && p.State == st {
			return true
		}
	}
	return false
}
