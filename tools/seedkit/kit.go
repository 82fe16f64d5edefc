package zzseed

// The demonstrations use a circuit whose public signals are all the inputs of
// a state update, the local chain, and the local place for published data.

import (
	"sync"
	"time"

	zkutils "github.com/iden3/go-iden3-core/utils/zk"

	offlocal "github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	onlocal "github.com/iden3/go-iden3-core/components/idenpubonchain/local"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

const levels = 10

var stateCircuit = Circuit{Public: []Signal{{"id", 1}, {"oldIdState", 1}, {"newIdState", 1}}, Salt: 1}

var (
	stateOnce  sync.Once
	stateFiles *zkutils.ZkFiles
)

type world struct {
	block   uint64
	now     int64
	onchain *onlocal.IdenPubOnChain
	off     *offlocal.IdenPubOffChain
}

func newWorld() *world {
	stateOnce.Do(func() { stateFiles = stateCircuit.Files(true) })
	w := &world{block: 100, now: 1000000}
	w.onchain = onlocal.New(func() time.Time { return time.Unix(w.now, 0) }, func() uint64 { return w.block }, stateCircuit.Vk())
	w.off = offlocal.NewIdenPubOffChain("http://localhost/off")
	return w
}

// mine makes what was sent part of the chain and n blocks on top.
func (w *world) mine(n uint64) {
	w.onchain.Sync()
	w.block += n
	w.now += int64(n)
}

type ident struct {
	w     *world
	store db.Storage
	ks    *keystore.KeyStore
	key   babyjub.PrivateKey
	kop   *babyjub.PublicKeyComp
	ho    *holder.Holder
	*issuer.Issuer
}

func conf() *issuer.IdenStateZkProofConf {
	return &issuer.IdenStateZkProofConf{Levels: levels, Files: *stateFiles} //nolint
}

func (w *world) newIdent(n byte, cfg issuer.Config, store db.Storage, extra ...claims.Claimer) *ident {
	x := &ident{w: w, store: store}
	x.key[0] = n
	var err error
	x.ks, err = keystore.NewKeyStore(&keystore.MemStorage{}, keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1})
	must(err)
	x.kop, err = x.ks.ImportKey(x.key, []byte("pass"))
	must(err)
	must(x.ks.UnlockKey(x.kop, []byte("pass")))
	_, err = holder.Create(holder.Config{Config: cfg}, x.kop, extra, store, x.ks)
	must(err)
	must(x.load())
	return x
}

// load opens the identity again from its storage.
func (x *ident) load() error {
	ho, err := holder.Load(x.store, x.ks, x.w.onchain, conf(), x.w.off, x.w.off)
	if err != nil {
		return err
	}
	x.ho, x.Issuer = ho, ho.Issuer
	return nil
}

// publish brings the present state on the chain.
func (x *ident) publish() {
	must(x.PublishState())
	x.w.mine(10)
	must(x.SyncIdenStatePublic())
	if st, _ := x.State(); !x.IdenStateOnChain().Equals(st) {
		panic("the state is not on the chain")
	}
}

// claim makes a claim with its own index.
func claim(n byte) *claims.ClaimBasic {
	var index [claims.IndexSlotLen]byte
	var value [claims.ValueSlotLen]byte
	index[0], value[0] = n, n
	return claims.NewClaimBasic(index, value)
}

var _ = merkletree.HashZero
