package world

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"sync"

	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"

	"verifharness/mtx"
	"verifharness/vh"
)

// Snap is the content of the three trees at one time.
type Snap struct {
	S, Clr, Rer, Ror    H
	Claims, Revs, Roots mtx.Set
}

// Issued is a claim in the model of an issuer.
type Issued struct {
	Spec  Spec
	C     claims.Claimer
	E     mtx.Entry
	Hi    H
	Nonce uint32
}

// Ident is an identity and the reference model of it.
type Ident struct {
	OnIssue func(s Spec, nonce uint32, err error) error // is told what was issued
	Chain   *Chain
	Pub     idenpubonchain.IdenPubOnChainer // how the chain is reached
	Off     *Off
	Store   db.Storage // what the code gets
	Cfg     issuer.Config
	KS      *keystore.KeyStore
	K       *babyjub.PublicKeyComp
	Sk      babyjub.PrivateKey
	ZkConf  *issuer.IdenStateZkProofConf
	ID      core.ID
	Is      *issuer.Issuer
	Ho      *holder.Holder // when the identity is loaded as a holder

	Claims, Revs, Roots mtx.Set
	List                []Snap
	OnChain             int // index in List, -1 for none
	OnChainAt           State
	Pending             int
	Transacted          bool
	Tx                  *Tx // of the pending state
	Issued              []*Issued
	Nonces              map[uint32]bool
	KOpEntry            mtx.Entry
}

// Pass is the password of the keys.
var Pass = []byte("pass")

// NewKeyStore makes a key store with one unlocked key.
func NewKeyStore(sk babyjub.PrivateKey) (*keystore.KeyStore, *babyjub.PublicKeyComp) {
	ks, err := keystore.NewKeyStore(&keystore.MemStorage{}, keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1})
	vh.Must(err)
	pk, err := ks.ImportKey(sk, Pass)
	vh.Must(err)
	vh.Must(ks.UnlockKey(pk, Pass))
	return ks, pk
}

// SameSet adds an entry to a set when its index is new.
func put(s mtx.Set, e mtx.Entry) bool {
	hi := e.Hi()
	if _, ok := s[hi]; ok {
		return false
	}
	s[hi] = e
	return true
}

// Now is the content of the trees of the model.
func (x *Ident) Now() Snap {
	s := Snap{Clr: x.Claims.Root(), Rer: x.Revs.Root(), Ror: x.Roots.Root(), Claims: x.Claims.Clone(), Revs: x.Revs.Clone(), Roots: x.Roots.Clone()}
	s.S = mtx.MustPoseidon(s.Clr, s.Rer, s.Ror)
	return s
}

// Create makes the identity. The genesis claims have nonces after the call;
// a refusal is returned with whether it was expected.
func Create(chain *Chain, off *Off, store db.Storage, cfg issuer.Config, key int, extra []Spec) (x *Ident, expected bool, err error) {
	return CreateIn(nil, chain, off, store, cfg, key, extra)
}

// CreateIn makes the identity with its key in a key store (nil: in one of its
// own).
func CreateIn(ks *keystore.KeyStore, chain *Chain, off *Off, store db.Storage, cfg issuer.Config, key int, extra []Spec) (x *Ident, expected bool, err error) {
	x = &Ident{Chain: chain, Pub: chain, Off: off, Store: store, Cfg: cfg, Sk: Key(key), OnChain: -1, Pending: -1,
		Claims: mtx.Set{}, Revs: mtx.Set{}, Roots: mtx.Set{}, Nonces: map[uint32]bool{}}
	if ks == nil {
		x.KS, x.K = NewKeyStore(x.Sk)
	} else {
		x.KS = ks
		x.K, err = ks.ImportKey(x.Sk, Pass)
		vh.Must(err)
		vh.Must(ks.UnlockKey(x.K, Pass))
	}
	x.ZkConf = ZkConf()
	kop := claims.NewClaimKeyBabyJub(x.Sk.Public(), claims.BabyJubKeyTypeAuthorizeKSign)
	x.KOpEntry = mtx.FromE(&kop.Entry().Data)
	// a genesis whose key claim lies deeper than the levels of the circuit
	// of the state update can't be published, by its configuration
	var shallow []Spec
	for _, s := range extra {
		if l := mtx.LCP(s.Entry(0).Hi(), x.KOpEntry.Hi()); l == 256 || l+1 <= Levels {
			shallow = append(shallow, s)
		}
	}
	extra = shallow
	var cs []claims.Claimer
	for _, s := range extra {
		cs = append(cs, s.Build())
	}
	expected = true
	id, err := issuer.Create(cfg, x.K, cs, store, x.KS)
	all := []mtx.Entry{x.KOpEntry}
	x.Nonces[Nonce(x.KOpEntry)] = true
	for i, s := range extra {
		n := cs[i].Metadata().RevNonce
		e := s.Entry(n)
		all = append(all, e)
		if err == nil && x.Nonces[n] {
			return x, false, fmt.Errorf("genesis claims share the nonce %d", n)
		}
		x.Nonces[n] = true
		x.Issued = append(x.Issued, &Issued{s, cs[i], e, e.Hi(), n})
	}
	for _, e := range all {
		if !x.Claims.Fits(e.Hi(), cfg.MaxLevelsClaimsTree) || !put(x.Claims, e) {
			return x, false, err
		}
	}
	put(x.Roots, RootLeaf(x.Claims.Root()))
	if err != nil {
		return x, true, err
	}
	x.List = []Snap{x.Now()}
	x.ID = IDOf(x.List[0].S, core.NewID(core.TypeBJP0, [27]byte{}))
	if *id != x.ID {
		return x, true, fmt.Errorf("the identifier is %x, should be %x", id[:], x.ID[:])
	}
	sib := x.Claims.Proof(x.KOpEntry.Hi()).Siblings
	sec := Secret{Sk: (*big.Int)(x.Sk.Scalar()), Clr: mtx.Int(x.List[0].Clr)}
	for i := 0; i <= Levels; i++ {
		v := new(big.Int)
		if i < len(sib) {
			v = mtx.Int(sib[i])
		}
		sec.Siblings = append(sec.Siblings, v)
	}
	chain.mu.Lock()
	chain.Who[x.ID] = sec
	chain.mu.Unlock()
	return x, true, nil
}

var (
	confOnce sync.Once
	conf     *issuer.IdenStateZkProofConf
)

// ZkConf is the configuration of the proofs of state updates.
func ZkConf() *issuer.IdenStateZkProofConf {
	confOnce.Do(func() {
		conf = &issuer.IdenStateZkProofConf{Levels: Levels, Files: *StateCircuit.Files(true)} //nolint
	})
	return conf
}

// Load opens the identity.
func (x *Ident) Load() error {
	is, err := issuer.Load(x.Store, x.KS, x.Pub, x.ZkConf, x.Off)
	if err == nil {
		x.Is = is
	}
	return err
}

// LoadHolder opens the identity as a holder that reads from r.
func (x *Ident) LoadHolder(r *Off) error {
	ho, err := holder.Load(x.Store, x.KS, x.Pub, x.ZkConf, x.Off, r)
	if err == nil {
		x.Ho, x.Is = ho, ho.Issuer
	}
	return err
}

// CheckState compares what the issuer says about its state with the model.
func (x *Ident) CheckState() error {
	now := x.Now()
	s, r := x.Is.State()
	if H(*s) != now.S || H(*r.ClaimsTreeRoot) != now.Clr || H(*r.RevocationsTreeRoot) != now.Rer || H(*r.RootsTreeRoot) != now.Ror {
		return fmt.Errorf("state %v of roots %v %v %v, should be %x of %x %x %x", s.Hex(), r.ClaimsTreeRoot.Hex(), r.RevocationsTreeRoot.Hex(), r.RootsTreeRoot.Hex(), now.S, now.Clr, now.Rer, now.Ror)
	}
	if *x.Is.ID() != x.ID || *x.Is.KeyOperational() != *x.K {
		return fmt.Errorf("the identifier or the key changed")
	}
	var on, pend H
	if x.OnChain >= 0 {
		on = x.List[x.OnChain].S
		if d := x.Is.StateDataOnChain(); !x.OnChainAt.Same(d) {
			return fmt.Errorf("data of the state on the chain is %+v, should be %+v", d, x.OnChainAt)
		}
	}
	if x.Pending >= 0 {
		pend = x.List[x.Pending].S
	}
	if g := x.Is.IdenStateOnChain(); H(*g) != on {
		return fmt.Errorf("state on the chain is %v, should be %x (pending %v)", g.Hex(), on, x.Pending)
	}
	if g, tr := x.Is.IdenStatePending(); H(*g) != pend || tr != x.Transacted {
		return fmt.Errorf("pending state is %v (sent: %v), should be %x (sent: %v)", g.Hex(), tr, pend, x.Transacted)
	}
	// what the issuer gave out is the caller's
	p, _ := x.Is.IdenStatePending()
	for _, h := range []*merkletree.Hash{s, r.ClaimsTreeRoot, r.RevocationsTreeRoot, r.RootsTreeRoot, p, x.Is.IdenStateOnChain(), x.Is.StateDataOnChain().IdenState} {
		*h = merkletree.Hash{1, 2, 3}
	}
	*x.Is.StateDataOnChain() = proof.IdenStateData{}
	*x.Is.ID() = core.ID{4}
	*x.Is.KeyOperational() = babyjub.PublicKeyComp{5}
	return nil
}

// Issue issues a claim of a spec and checks the outcome. The claim object is
// returned for later use.
func (x *Ident) Issue(s Spec, c claims.Claimer) (*Issued, string, error) {
	before := c.Metadata().RevNonce
	err := x.Is.IssueClaim(c)
	n := c.Metadata().RevNonce
	if x.OnIssue != nil {
		if err := x.OnIssue(s, n, err); err != nil {
			return nil, "", err
		}
	}
	hi := s.Entry(0).Hi()
	_, dup := x.Claims[hi]
	fits := x.Claims.Fits(hi, x.Cfg.MaxLevelsClaimsTree)
	if dup || !fits {
		if err == nil {
			return nil, "", fmt.Errorf("claim %v was issued: repeated %v, fits %v", s, dup, fits)
		}
		if n != before {
			return nil, "", fmt.Errorf("the nonce of claim %v changed from %d to %d, without being issued", s, before, n)
		}
		if dup {
			return nil, "repeated", nil
		}
		return nil, "too deep", nil
	}
	if err != nil {
		return nil, "", fmt.Errorf("claim %v was not issued: %v", s, err)
	}
	return x.Added(s, c)
}

// Added records a claim that was issued.
func (x *Ident) Added(s Spec, c claims.Claimer) (*Issued, string, error) {
	n := c.Metadata().RevNonce
	if x.Nonces[n] {
		return nil, "", fmt.Errorf("claim %v got the nonce %d of another claim", s, n)
	}
	x.Nonces[n] = true
	e := s.Entry(n)
	put(x.Claims, e)
	is := &Issued{s, c, e, e.Hi(), n}
	x.Issued = append(x.Issued, is)
	return is, "issued", nil
}

// Revoke revokes and checks the outcome.
func (x *Ident) Revoke(c merkletree.Entrier) (string, error) {
	e := mtx.FromE(&c.Entry().Data)
	err := x.Is.RevokeClaim(c)
	in, ok := x.Claims[e.Hi()]
	if !ok {
		if err == nil {
			return "", fmt.Errorf("a claim that was not issued was revoked")
		}
		return "revoke unknown", nil
	}
	rev := Rev(Nonce(in))
	if _, twice := x.Revs[rev.Hi()]; twice {
		if err == nil {
			return "", fmt.Errorf("a claim was revoked twice")
		}
		return "revoke again", nil
	}
	if !x.Revs.Fits(rev.Hi(), x.Cfg.MaxLevelsRevocationTree) {
		if err == nil {
			return "", fmt.Errorf("the nonce does not fit in the tree")
		}
		return "revoke too deep", nil
	}
	if err != nil {
		return "", fmt.Errorf("revoking failed: %v", err)
	}
	put(x.Revs, rev)
	return "revoked", nil
}

// Publish publishes without faults and checks the outcome.
func (x *Ident) Publish() (string, error) {
	txs, pubs := len(x.Chain.All), len(x.Off.Pubs)
	err := x.Is.PublishState()
	if x.Off.Bad != "" {
		return "", fmt.Errorf("%s", x.Off.Bad)
	}
	nothing := func() error {
		if len(x.Chain.All) != txs || len(x.Off.Pubs) != pubs {
			return fmt.Errorf("publishing sent %d transactions and published %d times, for nothing", len(x.Chain.All)-txs, len(x.Off.Pubs)-pubs)
		}
		return nil
	}
	if x.Pending >= 0 && x.Transacted {
		if err != issuer.ErrIdenStatePendingNotNil {
			return "", fmt.Errorf("publishing while a state is pending: %v", err)
		}
		return "publish while pending", nothing()
	}
	what := "published again"
	if x.Pending < 0 {
		last := x.List[len(x.List)-1]
		now := x.Now()
		if now.S == last.S {
			if err != nil {
				return "", fmt.Errorf("publishing without changes: %v", err)
			}
			return "publish without changes", nothing()
		}
		what = "published"
		if now.Clr != last.Clr {
			rl := RootLeaf(now.Clr)
			if !x.Roots.Fits(rl.Hi(), x.Cfg.MaxLevelsRootsTree) {
				if err == nil {
					return "", fmt.Errorf("the root does not fit in the roots tree")
				}
				return "roots tree full", nothing()
			}
			put(x.Roots, rl)
			now = x.Now()
		}
		x.List = append(x.List, now)
		x.Pending = len(x.List) - 1
	}
	if err != nil {
		return "", fmt.Errorf("publishing failed: %v", err)
	}
	x.Transacted = true
	if len(x.Chain.All) != txs+1 || len(x.Off.Pubs) != pubs+1 {
		return "", fmt.Errorf("publishing sent %d transactions and published %d times off chain", len(x.Chain.All)-txs, len(x.Off.Pubs)-pubs)
	}
	st := x.List[x.Pending]
	tx := x.Chain.All[txs]
	x.Tx = tx
	if tx.ID != x.ID || tx.New != st.S || tx.Init != (x.OnChain < 0) || !tx.Valid {
		return "", fmt.Errorf("publishing state %x (first: %v) sent %v, not what the contract accepts", st.S, x.OnChain < 0, tx)
	}
	return what, x.CheckPub(x.Off.Pubs[pubs], st)
}

// CheckPub compares a publication with a state.
func (x *Ident) CheckPub(p *Pub, st Snap) error {
	if p.ID != x.ID || p.State != st.S || p.Clr != st.Clr || p.Rer != st.Rer || p.Ror != st.Ror {
		return fmt.Errorf("published off chain %x of %x %x %x, should be %x of %x %x %x", p.State, p.Clr, p.Rer, p.Ror, st.S, st.Clr, st.Rer, st.Ror)
	}
	if !p.Revs.Equal(st.Revs) || !p.Roots.Equal(st.Roots) {
		return fmt.Errorf("published off chain the revocations %v and the roots %v, should be %v and %v", p.Revs, p.Roots, st.Revs, st.Roots)
	}
	return nil
}

// Synced is what the model becomes with a synchronization (with Sync, or
// when it is loaded).
func (x *Ident) Synced() string {
	if x.Pending < 0 || !x.Transacted {
		return "nothing to confirm"
	}
	if !x.Tx.Mined {
		return "not mined"
	}
	if !x.Tx.OK {
		x.Transacted = false
		return "transaction failed"
	}
	if x.Chain.Block-x.Tx.Block < x.Cfg.ConfirmBlocks {
		return "not confirmed"
	}
	s, _ := x.Chain.Latest(x.ID)
	x.OnChain, x.OnChainAt = x.Pending, s
	x.Pending, x.Transacted, x.Tx = -1, false, nil
	return "confirmed"
}

// Sync synchronizes and checks the outcome.
func (x *Ident) Sync() (string, error) {
	if err := x.Is.SyncIdenStatePublic(); err != nil {
		return "", fmt.Errorf("synchronizing: %v", err)
	}
	return x.Synced(), nil
}

// Credential asks for a credential and checks the outcome.
func (x *Ident) Credential(c merkletree.Entrier) (*proof.CredentialExistence, string, error) {
	e := mtx.FromE(&c.Entry().Data)
	cred, err := x.Is.GenCredentialExistence(c)
	if x.OnChain < 0 {
		if err != issuer.ErrIdenStateOnChainZero {
			return nil, "", fmt.Errorf("credential without a state on the chain: %v", err)
		}
		return nil, "credential before any state", nil
	}
	st := x.List[x.OnChain]
	in, ok := st.Claims[e.Hi()]
	if !ok || in != e {
		cur, now := x.Claims[e.Hi()]
		want := issuer.ErrClaimNotFoundClaimsTree
		what := "credential of unknown claim"
		if !ok && now && cur == e {
			want, what = issuer.ErrClaimNotYetInOnChainState, "credential of unpublished claim"
		}
		if ok {
			what = "credential of other value"
		}
		if err != want {
			return nil, "", fmt.Errorf("%s: %v", what, err)
		}
		return nil, what, nil
	}
	if err != nil {
		return nil, "", fmt.Errorf("no credential for a claim under the state on the chain: %v", err)
	}
	if err := x.CheckCred(cred, e, st, x.OnChainAt); err != nil {
		return nil, "", err
	}
	// the credential is the caller's: a copy goes on, this one is reused
	b, err := json.Marshal(cred)
	if err != nil {
		return nil, "", fmt.Errorf("credential to JSON: %v", err)
	}
	var c2 proof.CredentialExistence
	if err := json.Unmarshal(b, &c2); err != nil {
		return nil, "", fmt.Errorf("credential from JSON: %v", err)
	}
	*cred.Id, *cred.IdenStateData.IdenState = core.ID{6}, merkletree.Hash{7}
	*cred.RevocationsTreeRoot, *cred.RootsTreeRoot = merkletree.Hash{8}, merkletree.Hash{9}
	for _, s := range append(cred.MtpClaim.Siblings, cred.MtpClaim.AllSiblings()...) {
		*s = merkletree.Hash{10}
	}
	return &c2, "credential", x.CheckCred(&c2, e, st, x.OnChainAt)
}

// CheckCred compares a credential with the reference.
func (x *Ident) CheckCred(cred *proof.CredentialExistence, e mtx.Entry, st Snap, at State) error {
	pr := st.Claims.Proof(e.Hi())
	switch {
	case cred.Id == nil || *cred.Id != x.ID:
		return fmt.Errorf("credential of another identity")
	case !at.Same(&cred.IdenStateData):
		return fmt.Errorf("credential under %+v, should be under %+v", cred.IdenStateData, at)
	case cred.MtpClaim == nil || string(cred.MtpClaim.Bytes()) != string(pr.Bytes()):
		return fmt.Errorf("credential with the proof %+v, should be %+v", cred.MtpClaim, pr)
	case cred.Claim == nil || mtx.FromE(&cred.Claim.Data) != e:
		return fmt.Errorf("credential of claim %+v, should be %v", cred.Claim, e)
	case H(*cred.RevocationsTreeRoot) != st.Rer || H(*cred.RootsTreeRoot) != st.Ror:
		return fmt.Errorf("credential with the roots %v %v, should be %x %x", cred.RevocationsTreeRoot.Hex(), cred.RootsTreeRoot.Hex(), st.Rer, st.Ror)
	case cred.IdenPubUrl != x.Off.URL:
		return fmt.Errorf("credential refers to %q, should be %q", cred.IdenPubUrl, x.Off.URL)
	}
	return nil
}

// SortedNonces is for messages.
func (x *Ident) SortedNonces() (r []uint32) {
	for n := range x.Nonces {
		r = append(r, n)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
