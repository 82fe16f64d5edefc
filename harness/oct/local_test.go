// Package oct checks the two ways to reach the chain: the local one and the
// one that calls the contract through an Ethereum node.
package oct

import (
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/core/types"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-circom-prover-verifier/verifier"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/components/idenpubonchain/local"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"

	"verifharness/mtx"
	"verifharness/toyzk"
	"verifharness/vh"
	"verifharness/world"
)

type H = mtx.H

func TestMain(m *testing.M) { vh.Main(m) }

// circuit is that of the local chain: the identifier and both states.
var circuit = toyzk.Circuit{Public: []toyzk.Signal{{Name: "id", N: 1}, {Name: "old", N: 1}, {Name: "new", N: 1}}, Salt: 9}

var (
	once   sync.Once
	vk     *zktypes.Vk
	forger *toyzk.Forger
)

func setup() {
	once.Do(func() { vk, forger = circuit.Vk(), circuit.Forger() })
}

func pubs(id core.ID, old, new H) []*big.Int {
	var h H
	copy(h[:], id[:])
	return []*big.Int{mtx.Int(h), mtx.Int(old), mtx.Int(new)}
}

// fieldElem is an element of the field that is not zero.
func fieldElem(t *rapid.T, what string) H {
	h := mtx.Elem(false).Draw(t, what)
	if h == (H{}) {
		h[0] = 1
	}
	return h
}

// sub is one submitted write.
type sub struct {
	k     int
	init  bool
	state world.State
	tx    *types.Transaction
}

// TestN01_Local: the local chain accepts and shows what the contract would.
func TestN01_Local(t *testing.T) {
	setup()
	rec := vh.NewRec("N01_Local", "histories of writes of 1 to 3 identities with right, wrong, altered and old proofs, synchronizations, and readings by identity, block and time; non-trivial: an identity has two states and a wrong proof was refused")
	vh.Check(t, 1600, 40000, func(t *rapid.T) {
		ts, block := int64(1600000000), rapid.SampledFrom([]uint64{0, 1, 255, 256, 1<<32 - 1}).Draw(t, "block")
		l := local.New(func() time.Time { return time.Unix(ts, 999999999) }, func() uint64 { return block }, vk)
		n := rapid.SampledFrom([]int{1, 2, 3, 3, 3, 8}).Draw(t, "identities")
		var states []H
		for i := rapid.IntRange(2, 5).Draw(t, "states"); i > 0; i-- {
			states = append(states, fieldElem(t, "state"))
		}
		var ids []core.ID
		var gen []H
		for i := 0; i < n; i++ {
			g := fieldElem(t, "genesis")
			g[20] = byte(i)
			g[31] &= 0x0f
			gen = append(gen, g)
			ids = append(ids, world.IDOf(g, core.ID{byte(i % 2), 0}))
		}
		hist := make([][]world.State, n)
		var pending, done []sub
		isPending := func(k int) bool {
			for _, p := range pending {
				if p.k == k {
					return true
				}
			}
			return false
		}
		used := map[int][]*zktypes.Proof{}
		var log []string
		refused, two := false, false
		// own makes what was given out the caller's
		own := func(d *proof.IdenStateData) {
			if d != nil && d.IdenState != nil {
				*d.IdenState = merkletree.Hash{9, 9, 9}
				d.BlockN, d.BlockTs = 99, 99
			}
		}
		read := func(k int) {
			id := ids[k]
			d, err := l.GetState(&id)
			if len(hist[k]) == 0 {
				if err != idenpubonchain.ErrIdenNotOnChain {
					t.Fatalf("state of an identity that is not on the chain: %+v, %v\nafter %v", d, err, log)
				}
			} else if last := hist[k][len(hist[k])-1]; err != nil || !last.Same(d) {
				t.Fatalf("the state is %+v (%v), want %+v\nafter %v", d, err, last, log)
			}
			own(d)
			var qb []uint64
			var qt []int64
			for _, s := range hist[k] {
				qb, qt = append(qb, s.N), append(qt, s.Ts)
			}
			qb = append(qb, block, rapid.SampledFrom([]uint64{0, block - 1, block + 1, 1 << 63}).Draw(t, "some block"))
			qt = append(qt, ts, rapid.SampledFrom([]int64{0, -1, ts - 1, ts + 1}).Draw(t, "some time"))
			for _, q := range qb {
				var want *world.State
				for i := range hist[k] {
					if hist[k][i].N == q {
						want = &hist[k][i]
					}
				}
				d, err := l.GetStateByBlock(&id, q)
				switch {
				case len(hist[k]) == 0 && err != idenpubonchain.ErrIdenNotOnChain,
					len(hist[k]) != 0 && want == nil && err != idenpubonchain.ErrIdenByBlockNotFound,
					want != nil && (err != nil || !want.Same(d)):
					t.Fatalf("the state of block %d is %+v (%v), want %+v\nafter %v", q, d, err, want, log)
				}
				own(d)
			}
			for _, q := range qt {
				var want *world.State
				for i := range hist[k] {
					if hist[k][i].Ts == q {
						want = &hist[k][i]
					}
				}
				d, err := l.GetStateByTime(&id, q)
				switch {
				case len(hist[k]) == 0 && err != idenpubonchain.ErrIdenNotOnChain,
					len(hist[k]) != 0 && want == nil && err != idenpubonchain.ErrIdenByTimeNotFound,
					want != nil && (err != nil || !want.Same(d)):
					t.Fatalf("the state of time %d is %+v (%v), want %+v\nafter %v", q, d, err, want, log)
				}
				own(d)
			}
		}
		for steps := rapid.SampledFrom([]int{2, 6, 12, 18, 24}).Draw(t, "steps"); steps > 0; steps-- {
			switch rapid.SampledFrom([]string{"write", "write", "write", "sync", "sync", "block", "read", "confirm", "burst"}).Draw(t, "op") {
			case "burst":
				// everyone writes
				for k := range ids {
					if isPending(k) {
						continue
					}
					old, newSt := gen[k], states[rapid.IntRange(0, len(states)-1).Draw(t, "new")]
					init := len(hist[k]) == 0
					if !init {
						old = hist[k][len(hist[k])-1].S
					}
					p := forger.Proof(pubs(ids[k], old, newSt), 3, 4)
					id, nst, gst := ids[k], newSt, gen[k]
					var tx *types.Transaction
					var err error
					if init {
						tx, err = l.InitState(&id, (*merkletree.Hash)(&gst), (*merkletree.Hash)(&nst), p)
					} else {
						tx, err = l.SetState(&id, (*merkletree.Hash)(&nst), p)
					}
					if err != nil {
						t.Fatalf("a right write gives %v\nafter %v", err, log)
					}
					pending = append(pending, sub{k, init, world.State{N: block, Ts: ts, S: newSt}, tx})
					used[k] = append(used[k], p)
				}
				log = append(log, fmt.Sprintf("burst@%d", block))
			case "write":
				k := rapid.IntRange(0, n-1).Draw(t, "who")
				init := len(hist[k]) == 0
				if rapid.IntRange(0, 9).Draw(t, "wrong call") == 0 {
					init = !init
				}
				old := gen[k]
				if len(hist[k]) > 0 {
					old = hist[k][len(hist[k])-1].S
				}
				// writes that are pending come first
				for _, p := range pending {
					if p.k == k && !p.init {
						old = p.state.S
						rec.Label("second pending write")
					}
				}
				newSt := states[rapid.IntRange(0, len(states)-1).Draw(t, "new")]
				kind := rapid.SampledFrom([]string{"right", "right", "right", "right", "right", "right", "right", "id", "old", "new", "swapped", "altered", "earlier", "alias", "genesis", "incomplete"}).Draw(t, "proof")
				oid, oold, onew := ids[k], old, newSt
				submit := newSt
				switch kind {
				case "id":
					oid[rapid.IntRange(0, 30).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
					if j := rapid.IntRange(0, n-1).Draw(t, "other"); j != k && rapid.Bool().Draw(t, "whole") {
						oid = ids[j]
					}
				case "old":
					oold[rapid.IntRange(0, 30).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				case "genesis":
					oold = gen[k]
				case "new":
					onew[rapid.IntRange(0, 30).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				case "swapped":
					oold, onew = onew, oold
				case "alias":
					submit = mtx.FromInt(new(big.Int).Add(mtx.Int(newSt), mtx.Q))
				}
				valid := oid == ids[k] && oold == old && onew == submit
				p := forger.Proof(pubs(oid, oold, onew), rapid.Int64Range(1, 5).Draw(t, "a"), rapid.Int64Range(1, 5).Draw(t, "b"))
				switch kind {
				case "incomplete":
					valid = false
					switch rapid.IntRange(0, 6).Draw(t, "missing") {
					case 0:
						p = nil
					case 1:
						p.A = nil
					case 2:
						p.B = nil
					case 3:
						p.C = nil
					case 4:
						p.A = &bn256.G1{}
					case 5:
						p.B = &bn256.G2{}
					case 6:
						p.C = &bn256.G1{}
					}
				case "altered":
					valid = false
					one := oneG1()
					switch rapid.IntRange(0, 2).Draw(t, "part") {
					case 0:
						p.A = oneG1().Add(p.A, one)
					case 1:
						p.B = oneG2().Add(p.B, oneG2())
					default:
						p.C = oneG1().Add(p.C, one)
					}
				case "earlier":
					if len(used[k]) > 0 {
						p = used[k][rapid.IntRange(0, len(used[k])-1).Draw(t, "which")]
						valid = verifier.Verify(vk, p, pubs(ids[k], old, submit))
					}
				}
				id, nst, gst := ids[k], submit, gen[k]
				var tx *types.Transaction
				var err error
				if m := vh.Catch(func() {
					if init {
						tx, err = l.InitState(&id, (*merkletree.Hash)(&gst), (*merkletree.Hash)(&nst), p)
					} else {
						tx, err = l.SetState(&id, (*merkletree.Hash)(&nst), p)
					}
				}); m != "" {
					t.Fatalf("a write with a proof (%s) crashes: %s\nafter %v", kind, m, log)
				}
				// the caller goes on with its buffers
				id, nst, gst = core.ID{1, 2, 3}, H{4, 5}, H{6}
				_, _, _ = id, nst, gst
				switch {
				case init && (len(hist[k]) > 0 || isPending(k)):
					if err == nil {
						t.Fatalf("an identity on the chain was initialized again\nafter %v", log)
					}
				case !init && len(hist[k]) == 0:
					if err != idenpubonchain.ErrIdenNotOnChain {
						t.Fatalf("setting the state of an identity that is not on the chain: %v\nafter %v", err, log)
					}
				case valid != (err == nil):
					t.Fatalf("a write of %x with a proof (%s) that is valid: %v gives %v\nafter %v", submit, kind, valid, err, log)
				case err == nil:
					pending = append(pending, sub{k, init, world.State{N: block, Ts: ts, S: submit}, tx})
					used[k] = append(used[k], p)
					log = append(log, fmt.Sprintf("write(%d,%x..@%d)", k, submit[:3], block))
					continue
				default:
					refused = true
					rec.Label("refused: %s", kind)
				}
				log = append(log, "refused("+kind+")")
			case "sync":
				l.Sync()
				for _, p := range pending {
					hist[p.k] = append(hist[p.k], p.state)
					two = two || len(hist[p.k]) > 1
					done = append(done, p)
				}
				pending = nil
				log = append(log, "sync")
			case "block":
				block += rapid.SampledFrom([]uint64{1, 1, 2, 300}).Draw(t, "blocks")
				ts += rapid.SampledFrom([]int64{0, 1, 15, 4000}).Draw(t, "seconds")
				log = append(log, fmt.Sprintf("block %d, time %d", block, ts))
			case "read":
				read(rapid.IntRange(0, n-1).Draw(t, "who"))
			case "confirm":
				all := append(append([]sub(nil), done...), pending...)
				if len(all) == 0 {
					break
				}
				s := all[rapid.IntRange(0, len(all)-1).Draw(t, "which")]
				c, err := l.TxConfirmBlocks(s.tx)
				if err != nil || c.Cmp(new(big.Int).SetUint64(block-s.state.N)) != 0 {
					t.Fatalf("a write of block %d is confirmed by %v blocks (%v) at block %d", s.state.N, c, err, block)
				}
			}
		}
		for k := range ids {
			read(k)
		}
		rec.LabelIf(two, "two states")
		rec.Case(two && refused, "%d identities, %s", n, strings.Join(log, " "))
	})
}

func oneG1() *bn256.G1 { return new(bn256.G1).ScalarBaseMult(big.NewInt(1)) }
func oneG2() *bn256.G2 { return new(bn256.G2).ScalarBaseMult(big.NewInt(1)) }

// TestN01_Shared: goroutines share the local chain.
func TestN01_Shared(t *testing.T) {
	setup()
	rec := vh.NewRec("N01_Shared", "2 to 4 goroutines, each the writer of an identity, write, synchronize and read all of them; every answer is a state that was written, at its block, never older than one read before; non-trivial: 2 synchronized writes of one identity")
	type step struct {
		op string
		k  int
	}
	vh.Check(t, 400, 8000, func(t *rapid.T) {
		n := rapid.IntRange(2, 4).Draw(t, "goroutines")
		var mu sync.Mutex
		block := uint64(5)
		now := func() uint64 {
			mu.Lock()
			defer mu.Unlock()
			return block
		}
		l := local.New(func() time.Time { return time.Unix(int64(now())*10, 0) }, now, vk)
		var ids []core.ID
		var plans [][]step
		states := make([][]H, n)
		gens := make([]H, n)
		for g := 0; g < n; g++ {
			gens[g] = H{5: byte(g + 1)}
			ids = append(ids, world.IDOf(gens[g], core.ID{}))
			var plan []step
			for i := rapid.IntRange(2, 8).Draw(t, "ops"); i > 0; i-- {
				plan = append(plan, step{rapid.SampledFrom([]string{"write", "write", "sync", "read", "read", "past", "past", "block"}).Draw(t, "op"), rapid.IntRange(0, n-1).Draw(t, "of")})
			}
			plans = append(plans, plan)
		}
		bad := make(chan string, n)
		var wg sync.WaitGroup
		most := make([]int, n)
		run := func(g int) string {
			old := gens[g]
			inited := false
			seen := map[int]int{}
			for i, s := range plans[g] {
				switch s.op {
				case "write":
					st := H{0: byte(i + 1), 3: byte(g + 1)}
					p := forger.Proof(pubs(ids[g], old, st), 3, 4)
					id, nst, gst := ids[g], st, gens[g]
					var err error
					var tx *types.Transaction
					if inited {
						tx, err = l.SetState(&id, (*merkletree.Hash)(&nst), p)
					} else {
						tx, err = l.InitState(&id, (*merkletree.Hash)(&gst), (*merkletree.Hash)(&nst), p)
					}
					if err != nil {
						return fmt.Sprintf("writing: %v", err)
					}
					mu.Lock()
					states[g] = append(states[g], st)
					mu.Unlock()
					if c, err := l.TxConfirmBlocks(tx); err != nil || c.Sign() < 0 {
						return fmt.Sprintf("a transaction is confirmed by %v blocks (%v)", c, err)
					}
					l.Sync()
					d, err := l.GetState(&ids[g])
					if err != nil || H(*d.IdenState) != st {
						return fmt.Sprintf("after the synchronization the state is %+v (%v), not %x", d, err, st)
					}
					if d2, err := l.GetStateByBlock(&ids[g], d.BlockN); err != nil || d2.BlockN != d.BlockN {
						return fmt.Sprintf("the state of block %d is %+v (%v)", d.BlockN, d2, err)
					}
					inited, old = true, st
					most[g]++
				case "sync":
					l.Sync()
				case "block":
					mu.Lock()
					block++
					mu.Unlock()
				case "past":
					// whatever is answered is of the block or time asked for
					for b := uint64(5); b <= now(); b++ {
						d, err := l.GetStateByBlock(&ids[s.k], b)
						if err == nil && (d.BlockN != b || H(*d.IdenState)[3] != byte(s.k+1)) {
							return fmt.Sprintf("the state of block %d is %+v", b, d)
						}
						d, err = l.GetStateByTime(&ids[s.k], int64(b)*10)
						if err == nil && (d.BlockTs != int64(b)*10 || H(*d.IdenState)[3] != byte(s.k+1)) {
							return fmt.Sprintf("the state of time %d is %+v", b*10, d)
						}
					}
				case "read":
					d, err := l.GetState(&ids[s.k])
					if err == idenpubonchain.ErrIdenNotOnChain && seen[s.k] == 0 {
						break
					}
					if err != nil {
						return fmt.Sprintf("reading: %v", err)
					}
					at := 0
					mu.Lock()
					for j, x := range states[s.k] {
						if x == H(*d.IdenState) {
							at = j + 1
						}
					}
					mu.Unlock()
					if at == 0 && H(*d.IdenState)[3] != byte(s.k+1) {
						return fmt.Sprintf("read a state that the identity did not write: %x", *d.IdenState)
					}
					if at != 0 && at < seen[s.k] {
						return fmt.Sprintf("read the state %d after the state %d", at, seen[s.k])
					}
					if at != 0 {
						seen[s.k] = at
					}
				}
			}
			return ""
		}
		vh.Within("goroutines at the local chain", func() {
			for g := 0; g < n; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					if msg := vh.Catch(func() {
						if m := run(g); m != "" {
							bad <- m
						}
					}); msg != "" {
						bad <- msg
					}
				}(g)
			}
			wg.Wait()
		})
		select {
		case m := <-bad:
			t.Fatalf("%s", m)
		default:
		}
		nt := false
		for g := range most {
			nt = nt || most[g] > 1
		}
		rec.Case(nt, "%d goroutines: %v", n, plans)
	})
}
