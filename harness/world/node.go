package world

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/accounts"
	ethkeystore "github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rlp"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/eth"

	"verifharness/mtx"
	"verifharness/vh"
)

// Node is an Ethereum node that knows one contract, that of the states, and
// keeps them in a Chain. It speaks JSON-RPC and decodes calls by itself.
type Node struct {
	Chain    *Chain
	Contract common.Address
	GasPrice *big.Int

	mu    sync.Mutex
	url   string
	Nonce uint64
	// Trouble decides how an answer goes wrong: "", "500", "error", "close",
	// "junk", "null" or, for what is sent, "late" (accepted, then an error).
	Trouble func(method string) string
	// Hit counts the answers that went wrong.
	Hit int
	// Methods counts the calls.
	Methods map[string]int
	// Bad is the first call that no contract would understand.
	Bad string
	// Lag is how many blocks the node's view of the last block is behind.
	Lag uint64
	// Created are the receipts of contract creations.
	Created map[common.Hash]*types.Receipt
	Deploys []*types.Transaction
	// FailDeploy makes the n-th deployment fail (counted from 1).
	FailDeploy int
}

var (
	accOnce sync.Once
	accKS   *ethkeystore.KeyStore
	acc     accounts.Account
)

// Account is the account that pays.
func Account() (*ethkeystore.KeyStore, *accounts.Account) {
	accOnce.Do(func() {
		d, err := os.MkdirTemp("", "vhacc")
		vh.Must(err)
		accKS = ethkeystore.NewKeyStore(d, 2, 1)
		k, err := crypto.HexToECDSA(strings.Repeat("42", 32))
		vh.Must(err)
		acc, err = accKS.ImportECDSA(k, "p")
		vh.Must(err)
		vh.Must(accKS.Unlock(acc, "p"))
		_ = os.RemoveAll(d)
	})
	a := acc
	return accKS, &a
}

// NewNode makes a node for a chain.
func NewNode(c *Chain) *Node {
	n := &Node{Chain: c, Contract: common.Address{0xc0, 19: 1}, GasPrice: big.NewInt(1000000007), Methods: map[string]int{}, Created: map[common.Hash]*types.Receipt{}}
	n.url = ServeFunc(n.serve)
	return n
}

// Close frees the address.
func (n *Node) Close() { Forget(n.url) }

// Client connects to the node, with or without the account.
func (n *Node) Client(account bool) *eth.Client {
	c, err := ethclient.Dial(n.url)
	vh.Must(err)
	ks, a := Account()
	if !account {
		a = nil
	}
	return eth.NewClient(c, a, ks)
}

// Dial makes the real interface to the chain.
func (n *Node) Dial(account bool) *idenpubonchain.IdenPubOnChain {
	return idenpubonchain.New(n.Client(account), idenpubonchain.ContractAddresses{IdenStates: n.Contract})
}

// Patient asks again when a busy machine makes an answer late: the client
// waits one second for a receipt and for the block.
type Patient struct {
	*idenpubonchain.IdenPubOnChain
	N *Node
}

// TxConfirmBlocks asks until the answer is the one that the chain gives.
func (p Patient) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	want, wantErr := p.N.Chain.TxConfirmBlocks(tx)
	var got *big.Int
	var err error
	for i := 0; i < 20; i++ {
		got, err = p.IdenPubOnChain.TxConfirmBlocks(tx)
		if (err == nil) == (wantErr == nil) && (err != nil || got.Cmp(want) == 0) {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	return got, err
}

func selector(sig string) string { return hex.EncodeToString(crypto.Keccak256([]byte(sig))[:4]) }

var (
	selByID    = selector("getStateDataById(uint256)")
	selByBlock = selector("getStateDataByBlock(uint256,uint64)")
	selByTime  = selector("getStateDataByTime(uint256,uint64)")
	selInit    = selector("initState(uint256,uint256,uint256,uint256[2],uint256[2][2],uint256[2])")
	selSet     = selector("setState(uint256,uint256,uint256[2],uint256[2][2],uint256[2])")
)

func words(b []byte) (ws [][]byte, ok bool) {
	if len(b)%32 != 0 {
		return nil, false
	}
	for len(b) > 0 {
		ws = append(ws, b[:32])
		b = b[32:]
	}
	return ws, true
}

// wordID reads an identifier, which is a little endian number for the circuit.
func wordID(w []byte) (id core.ID, ok bool) {
	h := mtx.FromInt(new(big.Int).SetBytes(w))
	copy(id[:], h[:31])
	return id, h[31] == 0
}

func wordH(w []byte) H { return mtx.FromInt(new(big.Int).SetBytes(w)) }

func wordProof(ws [][]byte) (*zktypes.Proof, bool) {
	g1 := func(a, b []byte) (*bn256.G1, bool) {
		p := new(bn256.G1)
		_, err := p.Unmarshal(append(append([]byte(nil), a...), b...))
		return p, err == nil
	}
	p := &zktypes.Proof{}
	var okA, okC bool
	p.A, okA = g1(ws[0], ws[1])
	p.B = new(bn256.G2)
	_, err := p.B.Unmarshal(bytes.Join(ws[2:6], nil))
	p.C, okC = g1(ws[6], ws[7])
	return p, okA && okC && err == nil
}

type rpcErr struct {
	Code    int    `json:"code"`
	Message string `json:"message"`
}

func (n *Node) serve(rw http.ResponseWriter, r *http.Request) {
	var q struct {
		ID     json.RawMessage   `json:"id"`
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	if json.NewDecoder(r.Body).Decode(&q) != nil {
		rw.WriteHeader(400)
		return
	}
	n.mu.Lock()
	n.Methods[q.Method]++
	trouble := ""
	if n.Trouble != nil {
		trouble = n.Trouble(q.Method)
	}
	if trouble != "" {
		n.Hit++
	}
	n.mu.Unlock()
	var res interface{}
	var e *rpcErr
	switch trouble {
	case "500":
		rw.WriteHeader(500)
		return
	case "close":
		panic(http.ErrAbortHandler)
	case "error":
		e = &rpcErr{-32000, "trouble"}
	case "junk":
		rw.Header().Set("Content-Type", "application/json")
		_, _ = rw.Write([]byte(`{"jsonrpc":"2.0","id":`))
		return
	case "null":
	default:
		res, e = n.answer(q.Method, q.Params)
		if trouble == "late" {
			res, e = nil, &rpcErr{-32000, "late trouble"}
		}
	}
	out := map[string]interface{}{"jsonrpc": "2.0", "id": q.ID}
	if e != nil {
		out["error"] = e
	} else {
		out["result"] = res
	}
	rw.Header().Set("Content-Type", "application/json")
	_ = json.NewEncoder(rw).Encode(out)
}

func (n *Node) bad(format string, a ...interface{}) *rpcErr {
	s := fmt.Sprintf(format, a...)
	n.mu.Lock()
	if n.Bad == "" {
		n.Bad = s
	}
	n.mu.Unlock()
	return &rpcErr{-32602, s}
}

func (n *Node) answer(method string, params []json.RawMessage) (interface{}, *rpcErr) {
	switch method {
	case "eth_gasPrice":
		return fmt.Sprintf("0x%x", n.GasPrice), nil
	case "eth_chainId", "net_version":
		return "0x1", nil
	case "eth_getBalance":
		return "0xde0b6b3a7640000", nil
	case "eth_getTransactionCount":
		n.mu.Lock()
		defer n.mu.Unlock()
		return fmt.Sprintf("0x%x", n.Nonce), nil
	case "eth_getCode":
		return "0x60", nil
	case "eth_estimateGas":
		return "0x5208", nil
	case "eth_getBlockByNumber":
		n.Chain.mu.Lock()
		defer n.Chain.mu.Unlock()
		return &types.Header{Number: new(big.Int).SetUint64(n.Chain.Block - n.Lag), Time: uint64(n.Chain.Ts), Difficulty: big.NewInt(1)}, nil
	case "eth_blockNumber":
		n.Chain.mu.Lock()
		defer n.Chain.mu.Unlock()
		return fmt.Sprintf("0x%x", n.Chain.Block-n.Lag), nil
	case "eth_getTransactionReceipt":
		var h common.Hash
		if len(params) < 1 || json.Unmarshal(params[0], &h) != nil {
			return nil, n.bad("receipt of %s", params)
		}
		n.mu.Lock()
		if r := n.Created[h]; r != nil {
			n.mu.Unlock()
			return r, nil
		}
		n.mu.Unlock()
		n.Chain.mu.Lock()
		defer n.Chain.mu.Unlock()
		t := n.Chain.byHash[h]
		if t == nil || !t.Mined {
			return nil, nil
		}
		r := &types.Receipt{TxHash: h, BlockNumber: new(big.Int).SetUint64(t.Block), Logs: []*types.Log{}}
		if t.OK {
			r.Status = 1
		}
		return r, nil
	case "eth_call":
		var m struct {
			To   common.Address `json:"to"`
			Data string         `json:"data"`
		}
		if len(params) < 1 || json.Unmarshal(params[0], &m) != nil {
			return nil, n.bad("call of %s", params)
		}
		d, err := hex.DecodeString(strings.TrimPrefix(m.Data, "0x"))
		if err != nil || len(d) < 4 || m.To != n.Contract {
			return nil, n.bad("call of %x with %s", m.To, m.Data)
		}
		return n.call(d)
	case "eth_sendRawTransaction":
		var s string
		if len(params) < 1 || json.Unmarshal(params[0], &s) != nil {
			return nil, n.bad("transaction %s", params)
		}
		b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
		tx := &types.Transaction{}
		if err != nil || rlp.DecodeBytes(b, tx) != nil {
			return nil, n.bad("transaction %s", s)
		}
		return n.send(tx)
	}
	return nil, n.bad("method %s", method)
}

func (n *Node) call(d []byte) (interface{}, *rpcErr) {
	ws, ok := words(d[4:])
	sel := hex.EncodeToString(d[:4])
	want := 2
	if sel == selByID {
		want = 1
	}
	if !ok || len(ws) != want || sel != selByID && sel != selByBlock && sel != selByTime {
		return nil, n.bad("call with %x", d)
	}
	id, ok := wordID(ws[0])
	if !ok {
		return nil, n.bad("call about the identifier %x", ws[0])
	}
	n.Chain.mu.Lock()
	defer n.Chain.mu.Unlock()
	var s State
	hist := n.Chain.Hist[id]
	switch sel {
	case selByID:
		if len(hist) > 0 {
			s = hist[len(hist)-1]
		}
	default:
		v := new(big.Int).SetBytes(ws[1])
		if v.BitLen() > 64 {
			return nil, n.bad("call with %x", d)
		}
		at := func(s State) uint64 { return s.N }
		now := n.Chain.Block
		if sel == selByTime {
			at, now = func(s State) uint64 { return uint64(s.Ts) }, uint64(n.Chain.Ts)
		}
		if v.Uint64() > now {
			return nil, &rpcErr{3, "execution reverted: errNoFutureAllowed"}
		}
		for _, x := range hist {
			if at(x) <= v.Uint64() {
				s = x
			}
		}
	}
	out := make([]byte, 96)
	big.NewInt(0).SetUint64(s.N).FillBytes(out[:32])
	big.NewInt(s.Ts).FillBytes(out[32:64])
	mtx.Int(s.S).FillBytes(out[64:])
	return "0x" + hex.EncodeToString(out), nil
}

func (n *Node) send(tx *types.Transaction) (interface{}, *rpcErr) {
	from, err := types.Sender(types.HomesteadSigner{}, tx)
	_, a := Account()
	if err != nil || from != a.Address {
		return nil, n.bad("transaction from %x: %v", from, err)
	}
	n.mu.Lock()
	nonce := n.Nonce
	n.mu.Unlock()
	if tx.Nonce() != nonce || tx.Value().Sign() != 0 || tx.GasPrice().Cmp(n.GasPrice) < 0 {
		return nil, n.bad("transaction with nonce %d (not %d), value %v, gas price %v", tx.Nonce(), nonce, tx.Value(), tx.GasPrice())
	}
	if tx.To() == nil {
		n.mu.Lock()
		defer n.mu.Unlock()
		n.Nonce++
		n.Deploys = append(n.Deploys, tx)
		r := &types.Receipt{TxHash: tx.Hash(), BlockNumber: new(big.Int).SetUint64(n.Chain.Block), Logs: []*types.Log{}, Status: 1, ContractAddress: crypto.CreateAddress(from, tx.Nonce())}
		if n.FailDeploy == len(n.Deploys) {
			r.Status = 0
		}
		n.Created[tx.Hash()] = r
		return tx.Hash(), nil
	}
	d := tx.Data()
	if *tx.To() != n.Contract || len(d) < 4 {
		return nil, n.bad("transaction to %x with %x", tx.To(), d)
	}
	ws, ok := words(d[4:])
	sel := hex.EncodeToString(d[:4])
	t := &Tx{tx: tx}
	var at int
	switch {
	case ok && sel == selInit && len(ws) == 11:
		t.Init, t.New, t.Old, at = true, wordH(ws[0]), wordH(ws[1]), 2
	case ok && sel == selSet && len(ws) == 10:
		t.New, at = wordH(ws[0]), 1
	default:
		return nil, n.bad("transaction with %x", d)
	}
	if t.ID, ok = wordID(ws[at]); !ok {
		return nil, n.bad("transaction about the identifier %x", ws[at])
	}
	if t.Proof, ok = wordProof(ws[at+1:]); !ok {
		return nil, n.bad("transaction with the proof %x", ws[at+1:])
	}
	if _, err := n.Chain.submit(t); err != nil {
		return nil, &rpcErr{-32000, err.Error()}
	}
	n.mu.Lock()
	n.Nonce++
	n.mu.Unlock()
	return tx.Hash(), nil
}
