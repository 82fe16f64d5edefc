package oct

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/eth"
	"pgregory.net/rapid"

	"verifharness/mtx"
	"verifharness/vh"
	"verifharness/world"
)

func drawProof(t *rapid.T) *zktypes.Proof {
	n := func(w string) *big.Int {
		return new(big.Int).SetUint64(rapid.Uint64Range(1, 1<<62).Draw(t, w))
	}
	return &zktypes.Proof{A: new(bn256.G1).ScalarBaseMult(n("a")), B: new(bn256.G2).ScalarBaseMult(n("b")), C: new(bn256.G1).ScalarBaseMult(n("c"))}
}

func sameProof(p, q *zktypes.Proof) bool {
	return bytes.Equal(p.A.Marshal(), q.A.Marshal()) && bytes.Equal(p.B.Marshal(), q.B.Marshal()) && bytes.Equal(p.C.Marshal(), q.C.Marshal())
}

// troubles is what can go wrong with an answer. Asked for a gas price or a
// count, "null" is taken for zero.
func troubles(method string) []string {
	switch method {
	case "eth_gasPrice", "eth_getTransactionCount":
		return []string{"500", "error", "close", "junk"}
	case "eth_sendRawTransaction":
		return []string{"500", "error", "close", "junk", "late", "late"}
	}
	return []string{"500", "error", "close", "junk", "null"}
}

// TestN02_Contract: the chain is read and written through a node as it is.
func TestN02_Contract(t *testing.T) {
	rec := vh.NewRec("N02_Contract", "histories of a contract with 1 to 3 identities: writes through the client with any identifier, state and proof, mining, failing transactions, readings by identity, block and time, with faults of the node; non-trivial: a state and one of its past ones were read, and a fault hit a call")
	vh.Check(t, 2400, 60000, func(t *rapid.T) {
		chain := world.NewChain(rapid.SampledFrom([]uint64{1, 255, 1 << 33}).Draw(t, "block"), rapid.SampledFrom([]int64{1, 1600000000, 1 << 40}).Draw(t, "time"))
		accept := true
		var last *zktypes.Proof
		chain.Verify = func(id core.ID, old, new H, p *zktypes.Proof) bool { last = p; return accept }
		node := world.NewNode(chain)
		defer node.Close()
		node.Contract = common.Address{rapid.Byte().Draw(t, "contract"), 19: rapid.Byte().Draw(t, "contract")}
		node.GasPrice = big.NewInt(rapid.SampledFrom([]int64{0, 1, 99, 100, 1000000007, 1 << 50}).Draw(t, "gas price"))
		node.Nonce = rapid.SampledFrom([]uint64{0, 1, 127, 128, 1 << 20}).Draw(t, "nonce")
		ip := node.Dial(true)
		patient := world.Patient{IdenPubOnChain: ip, N: node}
		watcher := node.Dial(false)
		n := rapid.IntRange(1, 3).Draw(t, "identities")
		var ids []core.ID
		var gen []H
		for i := 0; i < n; i++ {
			g := fieldElem(t, "genesis")
			gen = append(gen, g)
			ids = append(ids, world.IDOf(g, core.ID{rapid.Byte().Draw(t, "type"), rapid.Byte().Draw(t, "type")}))
		}
		var txs []*types.Transaction
		var log []string
		past, hit := false, false
		// faulty runs a call with an answer going wrong, and tells whether one did
		trouble := ""
		faulty := func(f func()) bool {
			trouble = ""
			if rapid.IntRange(0, 5).Draw(t, "fault") != 0 {
				f()
				return false
			}
			at := rapid.IntRange(1, 3).Draw(t, "which answer")
			pick := rapid.IntRange(0, 59).Draw(t, "what fault")
			count := 0
			node.Trouble = func(m string) string {
				count++
				if count != at {
					return ""
				}
				ts := troubles(m)
				trouble = ts[pick%len(ts)]
				return trouble
			}
			before := node.Hit
			f()
			node.Trouble = nil
			h := node.Hit > before
			hit = hit || h
			if h {
				log = append(log, "fault:"+trouble)
			}
			return h
		}
		check := func(what string, wrong bool, d *proof.IdenStateData, err error, want *world.State, none error) {
			switch {
			case wrong && err == nil && want != nil && want.Same(d):
				// the fault hit something it could do without
			case wrong && err == nil:
				t.Fatalf("%s, with an answer of the node wrong (%s), is %+v, want an error or %+v\nafter %v", what, trouble, d, want, log)
			case wrong && (err == none && want != nil):
				t.Fatalf("%s, with an answer of the node wrong (%s), is not found, though there is %+v\nafter %v", what, trouble, want, log)
			case wrong:
			case want == nil && none != nil && err != none:
				t.Fatalf("%s: error %v, want %v\nafter %v", what, err, none, log)
			case want == nil && err == nil:
				t.Fatalf("%s: %+v, want an error\nafter %v", what, d, log)
			case want != nil && (err != nil || !want.Same(d)):
				t.Fatalf("%s: %+v (%v), want %+v\nafter %v", what, d, err, want, log)
			}
		}
		read := func(k int) {
			id := ids[k]
			c := ip
			if rapid.Bool().Draw(t, "without account") {
				c = watcher
			}
			h := chain.Hist[id]
			var d *proof.IdenStateData
			var err error
			var want *world.State
			if len(h) > 0 {
				want = &h[len(h)-1]
			}
			f := faulty(func() { d, err = c.GetState(&id) })
			check("the state", f, d, err, want, idenpubonchain.ErrIdenNotOnChain)
			var qb []uint64
			var qt []int64
			for _, s := range h {
				qb, qt = append(qb, s.N, s.N+1, s.N-1), append(qt, s.Ts, s.Ts+1, s.Ts-1)
			}
			qb = append(qb, chain.Block, chain.Block+1, rapid.SampledFrom([]uint64{0, 1 << 63, 1<<64 - 1}).Draw(t, "block"))
			qt = append(qt, chain.Ts, chain.Ts+1, 0, rapid.SampledFrom([]int64{1<<63 - 1, 1 << 41}).Draw(t, "time"))
			i := rapid.IntRange(0, len(qb)-1).Draw(t, "query")
			b, ts := qb[i], qt[rapid.IntRange(0, len(qt)-1).Draw(t, "query")]
			// the last one not later
			closest := func(at func(world.State) bool) (w *world.State) {
				for j := range h {
					if at(h[j]) {
						w = &h[j]
					}
				}
				if w != nil && w != want {
					past = true
				}
				return w
			}
			cb := closest(func(s world.State) bool { return s.N <= b })
			ct := closest(func(s world.State) bool { return s.Ts <= ts })
			noneB, noneT := idenpubonchain.ErrIdenNotOnChainOrBlockTooNew, idenpubonchain.ErrIdenNotOnChainOrTimeTooNew
			if b > chain.Block {
				cb, noneB = nil, nil
			}
			if ts > chain.Ts {
				ct, noneT = nil, nil
			}
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0:
				f := faulty(func() { d, err = c.GetStateClosestToBlock(&id, b) })
				check(fmt.Sprintf("the state closest to block %d", b), f, d, err, cb, noneB)
			case 1:
				f := faulty(func() { d, err = c.GetStateClosestToTime(&id, ts) })
				check(fmt.Sprintf("the state closest to time %d", ts), f, d, err, ct, noneT)
			case 2:
				f := faulty(func() { d, err = c.GetStateByBlock(&id, b) })
				if cb != nil && cb.N != b {
					cb, noneB = nil, idenpubonchain.ErrIdenByBlockNotFound
				}
				check(fmt.Sprintf("the state of block %d", b), f, d, err, cb, noneB)
			case 3:
				f := faulty(func() { d, err = c.GetStateByTime(&id, ts) })
				if ct != nil && ct.Ts != ts {
					ct, noneT = nil, idenpubonchain.ErrIdenByTimeNotFound
				}
				check(fmt.Sprintf("the state of time %d", ts), f, d, err, ct, noneT)
			}
		}
		for steps := rapid.SampledFrom([]int{2, 8, 16, 24, 32}).Draw(t, "steps"); steps > 0; steps-- {
			switch rapid.SampledFrom([]string{"write", "write", "write", "mine", "mine", "mine", "read", "read", "confirm"}).Draw(t, "op") {
			case "write":
				k := rapid.IntRange(0, n-1).Draw(t, "who")
				accept = rapid.IntRange(0, 5).Draw(t, "proof is right") != 0
				st := fieldElem(t, "state")
				p := drawProof(t)
				id, g := ids[k], gen[k]
				init := len(chain.Hist[id]) == 0
				before := len(chain.All)
				write := func(c *idenpubonchain.IdenPubOnChain) (*types.Transaction, error) {
					if init {
						return c.InitState(&id, mtx.Hash(g), mtx.Hash(st), p)
					}
					return c.SetState(&id, mtx.Hash(st), p)
				}
				if rapid.IntRange(0, 7).Draw(t, "without account") == 0 {
					if _, err := write(watcher); !errors.Is(err, eth.ErrAccountNil) || len(chain.All) != before {
						t.Fatalf("writing without an account: %v", err)
					}
					break
				}
				var tx *types.Transaction
				var err error
				f := faulty(func() { tx, err = write(ip) })
				sent := chain.All[before:]
				if node.Bad != "" {
					t.Fatalf("the node got a %s\nafter %v", node.Bad, log)
				}
				if !f && err != nil || err == nil && (len(sent) != 1 || tx == nil) || len(sent) > 1 || f && trouble != "late" && err != nil && len(sent) != 0 {
					t.Fatalf("writing sent %v, error %v (answer wrong: %v %s)\nafter %v", sent, err, f, trouble, log)
				}
				if f && trouble == "late" && err == nil {
					t.Fatalf("the node refused a transaction, but there is no error\nafter %v", log)
				}
				if len(sent) == 0 {
					break
				}
				s := sent[0]
				old := g
				if !init {
					old = chain.Hist[id][len(chain.Hist[id])-1].S
				}
				if s.Init != init || s.ID != id || s.New != st || s.Old != old || !sameProof(s.Proof, p) || last == nil {
					t.Fatalf("the contract gets %v with other arguments than given: init %v, id %x, %x -> %x", s, init, id[:], old, st)
				}
				if err == nil {
					if chain.Tx(tx) != s {
						t.Fatalf("the transaction returned is not the one that was sent")
					}
					txs = append(txs, tx)
				}
				log = append(log, fmt.Sprintf("write(%d,%x..)", k, st[:3]))
			case "mine":
				rej := rapid.IntRange(0, 4).Draw(t, "reject") == 0
				some := rapid.IntRange(0, 2).Draw(t, "how many")
				done := map[core.ID]bool{}
				chain.Mine(rapid.SampledFrom([]int64{1, 15, 1000}).Draw(t, "seconds"), func(x *world.Tx) (bool, bool) {
					in := some > 0 && !done[x.ID]
					done[x.ID] = true
					accept = x.Valid
					return in, rej
				})
				accept = true
				log = append(log, fmt.Sprintf("block %d", chain.Block))
			case "read":
				read(rapid.IntRange(0, n-1).Draw(t, "who"))
			case "confirm":
				if len(txs) == 0 {
					break
				}
				tx := txs[rapid.IntRange(0, len(txs)-1).Draw(t, "which")]
				s := chain.Tx(tx)
				var c *big.Int
				var err error
				// the node may know of the receipt before it knows of the block
				node.Lag = 0
				if rapid.IntRange(0, 2).Draw(t, "lagging") == 0 {
					node.Lag = rapid.Uint64Range(0, min(3, chain.Block)).Draw(t, "lag")
				}
				lag := node.Lag
				f := faulty(func() {
					if node.Trouble == nil {
						c, err = patient.TxConfirmBlocks(tx)
					} else {
						c, err = ip.TxConfirmBlocks(tx)
					}
				})
				node.Lag = 0
				head := chain.Block - lag
				switch {
				case f && err == nil:
					t.Fatalf("a transaction is confirmed by %v blocks with an answer of the node wrong (%s)\nafter %v", c, trouble, log)
				case f:
				case !s.Mined && err != eth.ErrReceiptNotReceived:
					t.Fatalf("a transaction in no block: %v blocks, error %v\nafter %v", c, err, log)
				case s.Mined && !s.OK && err != eth.ErrReceiptStatusFailed:
					t.Fatalf("a failed transaction: %v blocks, error %v\nafter %v", c, err, log)
				case s.Mined && s.OK && head < s.Block:
					rec.Label("lagging node")
					if err == nil && c.Sign() > 0 {
						t.Fatalf("a transaction of block %d is confirmed by %v blocks at block %d\nafter %v", s.Block, c, head, log)
					}
				case s.Mined && s.OK && (err != nil || c.Cmp(new(big.Int).SetUint64(head-s.Block)) != 0):
					t.Fatalf("a transaction of block %d is confirmed by %v (%v) blocks at block %d\nafter %v", s.Block, c, err, head, log)
				}
				if f && err == eth.ErrReceiptStatusFailed && s.OK {
					t.Fatalf("a good transaction is reported as failed")
				}
				rec.LabelIf(s.Mined && s.OK, "confirmed")
				rec.LabelIf(s.Mined && !s.OK, "failed")
			}
			if node.Bad != "" {
				t.Fatalf("the node got a %s\nafter %v", node.Bad, log)
			}
		}
		for k := range ids {
			for i := rapid.IntRange(1, 4).Draw(t, "readings"); i > 0; i-- {
				read(k)
			}
		}
		if node.Bad != "" {
			t.Fatalf("the node got a %s\nafter %v", node.Bad, log)
		}
		rec.LabelIf(past, "past state")
		rec.LabelIf(hit, "fault")
		rec.Case(past && hit, "%d identities: %s", n, strings.Join(log, " "))
	})
}

// TestN02_Deploy: the contracts are deployed as asked for.
func TestN02_Deploy(t *testing.T) {
	rec := vh.NewRec("N02_Deploy", "deployments of the contract with and without its dependency, with late, failed and missing receipts and faults of the node; non-trivial: something goes wrong or is late")
	vh.Check(t, 160, 1600, func(t *rapid.T) {
		chain := world.NewChain(7, 1600000000)
		node := world.NewNode(chain)
		defer node.Close()
		node.Nonce = rapid.SampledFrom([]uint64{0, 5, 127, 128, 300}).Draw(t, "nonce")
		account := rapid.IntRange(0, 9).Draw(t, "account") != 0
		client := node.Client(account)
		client.ReceiptTimeout = 30 * time.Second
		var deps *idenpubonchain.StateDepsAddresses
		given := rapid.IntRange(0, 2).Draw(t, "given")
		verifier := common.Address{3, 19: rapid.Byte().Draw(t, "verifier")}
		contracts := 2
		switch given {
		case 1:
			deps = &idenpubonchain.StateDepsAddresses{}
		case 2:
			deps = &idenpubonchain.StateDepsAddresses{Verifier: &verifier}
			contracts = 1
		}
		mode := rapid.SampledFrom([]string{"good", "good", "fails", "late", "never", "trouble"}).Draw(t, "mode")
		at := rapid.IntRange(1, contracts).Draw(t, "which")
		receipts := map[int]int{} // asked, by deployment
		count, hits := 0, rapid.IntRange(1, 4).Draw(t, "which answer")
		pick := rapid.IntRange(0, 59).Draw(t, "what fault")
		switch mode {
		case "fails":
			node.FailDeploy = at
		case "never":
			client.ReceiptTimeout = 300 * time.Millisecond
		}
		node.Trouble = func(m string) string {
			if m == "eth_getTransactionReceipt" {
				k := len(node.Deploys)
				receipts[k]++
				if k == at && (mode == "never" || mode == "late" && receipts[k] < 3) {
					return "null"
				}
				return ""
			}
			if mode == "trouble" {
				count++
				if count == hits {
					ts := troubles(m)
					return ts[pick%len(ts)]
				}
			}
			return ""
		}
		r, err := idenpubonchain.DeployState(client, deps)
		if node.Bad != "" {
			t.Fatalf("the node got a %s", node.Bad)
		}
		rec.Label("%s", mode)
		rec.Case(mode != "good" || !account, "%s %d of %d, nonce %d, account %v, fault %d %d", mode, at, contracts, node.Nonce, account, hits, pick)
		if !account {
			if !errors.Is(err, eth.ErrAccountNil) || len(node.Deploys) != 0 {
				t.Fatalf("deploying without an account: %v", err)
			}
			return
		}
		bad := mode == "fails" || mode == "never" || mode == "trouble" && node.Hit > 0
		if bad && err == nil || !bad && err != nil {
			t.Fatalf("deploying (%s): %v", mode, err)
		}
		if mode == "fails" && !errors.Is(err, eth.ErrReceiptStatusFailed) || mode == "never" && !errors.Is(err, eth.ErrReceiptNotReceived) {
			t.Fatalf("deploying (%s): %v", mode, err)
		}
		_, acc := world.Account()
		for k, tx := range node.Deploys {
			state := k == contracts-1
			if state {
				// the contract of the states has to know its verifier
				v := verifier
				if contracts == 2 {
					v = crypto.CreateAddress(acc.Address, node.Deploys[0].Nonce())
				}
				if d := tx.Data(); !bytes.Equal(d[len(d)-20:], v[:]) || !bytes.Equal(d[len(d)-32:len(d)-20], make([]byte, 12)) {
					t.Fatalf("the contract is deployed with the verifier %x, not %x", d[len(d)-32:], v)
				}
			}
			if mode != "trouble" && at == k+1 && mode != "good" && mode != "late" && k != len(node.Deploys)-1 {
				t.Fatalf("deploying went on after a failure")
			}
		}
		if err != nil {
			return
		}
		if len(node.Deploys) != contracts {
			t.Fatalf("%d contracts were deployed, not %d", len(node.Deploys), contracts)
		}
		want := verifier
		for k, x := range []eth.ContractData{r.Verifier, r.State} {
			if contracts == 1 && k == 0 {
				if x.Address != want {
					t.Fatalf("the verifier is at %x, not %x", x.Address, want)
				}
				continue
			}
			tx := node.Deploys[k+contracts-2]
			if x.Address != crypto.CreateAddress(acc.Address, tx.Nonce()) || x.Tx == nil || x.Tx.Hash() != tx.Hash() || x.Receipt == nil || x.Receipt.TxHash != tx.Hash() {
				t.Fatalf("contract %d: %+v, not the one of %x", k, x, tx.Hash())
			}
		}
	})
}
