// Package world is the surroundings of an identity: a simulated chain that
// follows the rules of the identity states contract, a recorder of what is
// published off chain, and a reference model of an issuer. The checks of the
// identity packages are built on it.
package world

import (
	"errors"
	"fmt"
	"math/big"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-circom-prover-verifier/verifier"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/merkletree"

	"verifharness/mtx"
	"verifharness/toyzk"
)

// H is an element.
type H = mtx.H

// Levels is how many levels the circuit of the state update has.
const Levels = 10

// StateCircuit makes every input of a state update a public signal.
var StateCircuit = toyzk.Circuit{Public: []toyzk.Signal{
	{Name: "id", N: 1}, {Name: "oldIdState", N: 1}, {Name: "newIdState", N: 1},
	{Name: "userPrivateKey", N: 1}, {Name: "siblings", N: Levels + 1}, {Name: "claimsTreeRoot", N: 1}}, Salt: 1}

var (
	vkOnce sync.Once
	vk     *zktypes.Vk
)

// Vk is the key that the chain verifies state updates with.
func Vk() *zktypes.Vk {
	vkOnce.Do(func() { vk = StateCircuit.Vk() })
	return vk
}

// State is one state of an identity on the chain.
type State struct {
	N  uint64
	Ts int64
	S  H
}

// Data is the state as the code under test sees it.
func (s State) Data() *proof.IdenStateData {
	return &proof.IdenStateData{BlockN: s.N, BlockTs: s.Ts, IdenState: mtx.Hash(s.S)}
}

// Same compares a state with the code's.
func (s State) Same(d *proof.IdenStateData) bool {
	return d != nil && d.IdenState != nil && d.BlockN == s.N && d.BlockTs == s.Ts && *d.IdenState == merkletree.Hash(s.S)
}

// Tx is one submitted transaction.
type Tx struct {
	Init  bool
	ID    core.ID
	Old   H // declared by InitState; the state on the chain for SetState
	New   H
	Proof *zktypes.Proof
	// Valid tells whether the contract would have accepted it when it was
	// submitted.
	Valid bool
	Mined bool
	OK    bool
	Block uint64
	tx    *types.Transaction
}

func (t *Tx) String() string {
	return fmt.Sprintf("{init=%v %x.. -> %x.. valid=%v mined=%v ok=%v block=%d}", t.Init, t.Old[:4], t.New[:4], t.Valid, t.Mined, t.OK, t.Block)
}

// Secret is what the proofs of an identity must have been made from.
type Secret struct {
	Sk       *big.Int
	Siblings []*big.Int
	Clr      *big.Int
}

// ErrInjected is the error of an injected fault.
var ErrInjected = errors.New("injected fault")

// Chain follows the rules of the contract.
type Chain struct {
	mu    sync.Mutex
	Block uint64
	Ts    int64
	nonce uint64
	// Pool are the transactions that wait for a block; All every one.
	Pool, All []*Tx
	byHash    map[common.Hash]*Tx
	Hist      map[core.ID][]State
	Who       map[core.ID]Secret
	// Fault decides whether a call fails, before it has any effect or after.
	Fault func(call string) (before, after bool)
	// Verify decides about a proof; nil for the circuit of the state update.
	Verify func(id core.ID, old, new H, p *zktypes.Proof) bool
	// Calls counts calls by name.
	Calls map[string]int
	// Pause, if not nil, is called before and after a transaction is taken, and before a read.
	Pause func()
}

var _ idenpubonchain.IdenPubOnChainer = (*Chain)(nil)

// NewChain starts at a block and a time.
func NewChain(block uint64, ts int64) *Chain {
	return &Chain{Block: block, Ts: ts, byHash: map[common.Hash]*Tx{}, Hist: map[core.ID][]State{}, Who: map[core.ID]Secret{}, Calls: map[string]int{}}
}

func (c *Chain) fault(call string) (b, a bool) {
	c.Calls[call]++
	if c.Fault == nil {
		return false, false
	}
	return c.Fault(call)
}

func idInt(id *core.ID) *big.Int {
	var h H
	copy(h[:], id[:])
	return mtx.Int(h)
}

// accept tells whether the contract accepts a transaction now.
func (c *Chain) accept(t *Tx) bool {
	old := t.Old
	h := c.Hist[t.ID]
	if t.Init {
		if len(h) != 0 || IDOf(t.Old, t.ID) != t.ID {
			return false
		}
	} else {
		if len(h) == 0 {
			return false
		}
		old = h[len(h)-1].S
		t.Old = old
	}
	if c.Verify != nil {
		return c.Verify(t.ID, old, t.New, t.Proof)
	}
	w, ok := c.Who[t.ID]
	if !ok {
		return false
	}
	pub := []*big.Int{idInt(&t.ID), mtx.Int(old), mtx.Int(t.New), w.Sk}
	pub = append(pub, w.Siblings...)
	pub = append(pub, w.Clr)
	return verifier.Verify(Vk(), t.Proof, pub)
}

// IDOf is the identifier that a genesis state gives, with the type of like.
func IDOf(st H, like core.ID) (id core.ID) {
	copy(id[:2], like[:2])
	copy(id[2:29], st[5:32])
	s := 0
	for _, b := range id[:29] {
		s += int(b)
	}
	id[29], id[30] = byte(s>>8), byte(s)
	return id
}

func (c *Chain) submit(t *Tx) (*types.Transaction, error) {
	if c.Pause != nil {
		c.Pause()
		defer c.Pause()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	name := "SetState"
	if t.Init {
		name = "InitState"
	}
	before, after := c.fault(name)
	if before {
		return nil, ErrInjected
	}
	t.Valid = c.accept(t)
	c.nonce++
	if t.tx == nil {
		t.tx = types.NewTransaction(c.nonce, common.Address{1}, nil, 0, nil, t.New[:])
	}
	c.byHash[t.tx.Hash()] = t
	c.Pool = append(c.Pool, t)
	c.All = append(c.All, t)
	if after {
		return nil, ErrInjected
	}
	return t.tx, nil
}

// InitState submits the first state of an identity.
func (c *Chain) InitState(id *core.ID, genesisState, newState *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return c.submit(&Tx{Init: true, ID: *id, Old: H(*genesisState), New: H(*newState), Proof: p})
}

// SetState submits the next state of an identity.
func (c *Chain) SetState(id *core.ID, newState *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return c.submit(&Tx{ID: *id, New: H(*newState), Proof: p})
}

// Mine makes the next block, dt seconds later, with the transactions of the
// pool that sel chooses; reject makes them fail.
func (c *Chain) Mine(dt int64, sel func(*Tx) (include, reject bool)) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Block++
	c.Ts += dt
	var rest []*Tx
	for _, t := range c.Pool {
		include, reject := sel(t)
		if !include {
			rest = append(rest, t)
			continue
		}
		t.Mined, t.Block = true, c.Block
		t.OK = !reject && c.accept(t)
		if t.OK {
			c.Hist[t.ID] = append(c.Hist[t.ID], State{c.Block, c.Ts, t.New})
		}
	}
	c.Pool = rest
}

// All includes every transaction.
func All(*Tx) (bool, bool) { return true, false }

// None includes none.
func None(*Tx) (bool, bool) { return false, false }

// Force puts a state on the chain that the identity did not publish.
func (c *Chain) Force(id core.ID, s H) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Block++
	c.Ts++
	c.Hist[id] = append(c.Hist[id], State{c.Block, c.Ts, s})
}

// Latest is the state of an identity on the chain.
func (c *Chain) Latest(id core.ID) (State, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	h := c.Hist[id]
	if len(h) == 0 {
		return State{}, false
	}
	return h[len(h)-1], true
}

// At is the state that was set in a block.
func (c *Chain) At(id core.ID, n uint64) (State, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, s := range c.Hist[id] {
		if s.N == n {
			return s, true
		}
	}
	return State{}, false
}

func (c *Chain) read(call string) error {
	if c.Pause != nil {
		c.Pause()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if b, a := c.fault(call); b || a {
		return ErrInjected
	}
	return nil
}

// GetState returns the latest state.
func (c *Chain) GetState(id *core.ID) (*proof.IdenStateData, error) {
	if err := c.read("GetState"); err != nil {
		return nil, err
	}
	if c.Pause != nil {
		defer c.Pause()
	}
	if s, ok := c.Latest(*id); ok {
		return s.Data(), nil
	}
	return nil, idenpubonchain.ErrIdenNotOnChain
}

// GetStateByBlock returns the state set in a block.
func (c *Chain) GetStateByBlock(id *core.ID, n uint64) (*proof.IdenStateData, error) {
	if err := c.read("GetStateByBlock"); err != nil {
		return nil, err
	}
	if _, ok := c.Latest(*id); !ok {
		return nil, idenpubonchain.ErrIdenNotOnChainOrBlockTooNew
	}
	if s, ok := c.At(*id, n); ok {
		return s.Data(), nil
	}
	return nil, idenpubonchain.ErrIdenByBlockNotFound
}

// GetStateByTime returns the state set at a time.
func (c *Chain) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) {
	if err := c.read("GetStateByTime"); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, s := range c.Hist[*id] {
		if s.Ts == ts {
			return s.Data(), nil
		}
	}
	return nil, idenpubonchain.ErrIdenByTimeNotFound
}

// TxConfirmBlocks tells how many blocks follow the one of a transaction.
func (c *Chain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	if err := c.read("TxConfirmBlocks"); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if tx == nil {
		return nil, errors.New("no transaction")
	}
	t, ok := c.byHash[tx.Hash()]
	if !ok || !t.Mined {
		return nil, eth.ErrReceiptNotReceived
	}
	if !t.OK {
		return nil, eth.ErrReceiptStatusFailed
	}
	return new(big.Int).SetUint64(c.Block - t.Block), nil
}

// Tx finds a submitted transaction.
func (c *Chain) Tx(tx *types.Transaction) *Tx {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.byHash[tx.Hash()]
}
