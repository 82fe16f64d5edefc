// Package toyzk makes small circuits: the file that calculates the witness
// (WASM, in the interface of circom), the proving key and the verification
// key. A circuit has public signals, set from named inputs; the inputs that
// have no signal are ignored. The proof binds exactly the public signals, so
// what the identity code proves and what it checks can be observed, without
// the keys of the real circuits, which are on the network.
package toyzk

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"hash/fnv"
	"math/big"
	"os"
	"path/filepath"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/iden3/go-circom-prover-verifier/parsers"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"

	"verifharness/vh"
)

// Signal is an input: its name and how many elements it has.
type Signal struct {
	Name string
	N    int
}

// Circuit has its public signals in order.
type Circuit struct {
	Public []Signal
	// Salt makes circuits with different keys.
	Salt int64
}

func (c Circuit) nPublic() int {
	n := 0
	for _, s := range c.Public {
		n += s.N
	}
	return n
}

// nVars is at least 64: the prover wants some for each CPU.
func (c Circuit) nVars() int {
	if n := c.nPublic() + 1; n > 64 {
		return n
	}
	return 64
}

const (
	primeAt = 8
	base    = 64
	slot    = 40
	scratch = 300
)

func leb(v uint64) (b []byte) {
	for {
		c := byte(v & 0x7f)
		v >>= 7
		if v != 0 {
			b = append(b, c|0x80)
		} else {
			return append(b, c)
		}
	}
}

func sleb(v int64) (b []byte) {
	for {
		c := byte(v & 0x7f)
		v >>= 7
		if (v == 0 && c&0x40 == 0) || (v == -1 && c&0x40 != 0) {
			return append(b, c)
		}
		b = append(b, c|0x80)
	}
}

func cat(bs ...[]byte) (r []byte) {
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func i32c(v int32) []byte { return cat([]byte{0x41}, sleb(int64(v))) }
func get(i byte) []byte   { return []byte{0x20, i} }

func vec(items ...[]byte) []byte { return cat(leb(uint64(len(items))), cat(items...)) }
func section(id byte, body []byte) []byte {
	return cat([]byte{id}, leb(uint64(len(body))), body)
}
func str(s string) []byte { return cat(leb(uint64(len(s))), []byte(s)) }

// WASM is the file that calculates the witness.
func (c Circuit) WASM() []byte {
	nVars := c.nVars()
	// the code of each function
	storeOff := func(off int) []byte { // mem[p0] = off; return
		return cat(get(0), i32c(int32(off)), []byte{0x36, 0x02, 0x00, 0x0f})
	}
	off := 1
	var sigOff []byte
	for _, s := range c.Public {
		h := fnv.New64a()
		h.Write([]byte(s.Name))
		v := h.Sum64()
		// if msb == and lsb == { store }
		sigOff = cat(sigOff, get(2), i32c(int32(uint32(v>>32))), []byte{0x46}, get(3), i32c(int32(uint32(v))), []byte{0x46, 0x71, 0x04, 0x40}, storeOff(off), []byte{0x0b})
		off += s.N
	}
	sigOff = cat(sigOff, storeOff(nVars))
	addr := func(l byte) []byte { // base + local*slot
		return cat(get(l), i32c(slot), []byte{0x6c}, i32c(base), []byte{0x6a})
	}
	var set []byte
	for i := 0; i < slot/8; i++ {
		o := leb(uint64(8 * i))
		set = cat(set, addr(2), get(3), []byte{0x29, 0x03}, o, []byte{0x37, 0x03}, o)
	}
	fns := []struct {
		name string
		typ  byte
		code []byte
	}{
		{"getFrLen", 0, i32c(40)},
		{"getPRawPrime", 0, i32c(primeAt)},
		{"getNVars", 0, i32c(int32(nVars))},
		{"init", 1, nil},
		{"getSignalOffset32", 2, sigOff},
		{"setSignal", 2, set},
		{"getPWitness", 3, addr(0)},
		{"getWitnessBuffer", 0, i32c(base)},
	}
	const i32 = 0x7f
	types := vec(
		[]byte{0x60, 0, 1, i32},
		[]byte{0x60, 1, i32, 0},
		[]byte{0x60, 4, i32, i32, i32, i32, 0},
		[]byte{0x60, 1, i32, 1, i32},
	)
	var decl, exps, codes [][]byte
	for i, f := range fns {
		decl = append(decl, []byte{f.typ})
		exps = append(exps, cat(str(f.name), []byte{0}, leb(uint64(i))))
		body := cat([]byte{0}, f.code, []byte{0x0b})
		codes = append(codes, cat(leb(uint64(len(body))), body))
	}
	exps = append(exps, cat(str("memory"), []byte{2, 0}))
	data := make([]byte, base+8)
	binary.LittleEndian.PutUint32(data, uint32(base+slot*(nVars+scratch)))
	p := zktypes.R.Bytes()
	for i := range p {
		data[primeAt+i] = p[len(p)-1-i]
	}
	data[base] = 1
	return cat([]byte{0, 'a', 's', 'm', 1, 0, 0, 0},
		section(1, types),
		section(3, vec(decl...)),
		section(5, vec([]byte{0, 2})),
		section(7, vec(exps...)),
		section(10, vec(codes...)),
		section(11, vec(cat([]byte{0}, i32c(0), []byte{0x0b}, leb(uint64(len(data))), data))),
	)
}

var r = zktypes.R

func mod(x *big.Int) *big.Int    { return new(big.Int).Mod(x, r) }
func mul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
func add(a, b *big.Int) *big.Int { return mod(new(big.Int).Add(a, b)) }
func inv(a *big.Int) *big.Int    { return new(big.Int).ModInverse(a, r) }
func pow(a, e *big.Int) *big.Int { return new(big.Int).Exp(a, e, r) }
func g1(x *big.Int) *bn256.G1    { return new(bn256.G1).ScalarBaseMult(x) }
func g2(x *big.Int) *bn256.G2    { return new(bn256.G2).ScalarBaseMult(x) }
func hexInt(b []byte) string     { return new(big.Int).SetBytes(b).String() }
func g1s(x *big.Int) []string {
	b := g1(x).Marshal()
	return []string{hexInt(b[:32]), hexInt(b[32:]), "1"}
}
func g2s(x *big.Int) [][]string {
	b := g2(x).Marshal()
	return [][]string{{hexInt(b[32:64]), hexInt(b[:32])}, {hexInt(b[96:]), hexInt(b[64:96])}, {"1", "0"}}
}

func secret(salt int64, name string) *big.Int {
	h := sha256.Sum256([]byte(name + big.NewInt(salt).String()))
	return mod(new(big.Int).SetBytes(h[:]))
}

// rows has the size of the domain, the secret point, what is zero on the
// domain there, the values of the signals there and their sum.
func (c Circuit) rows() (m int, tau, z *big.Int, l []*big.Int, sum *big.Int) {
	n := c.nVars()
	bits := 0
	m = 1
	for m <= n { // one more row than used: the reader of keys mistakes the generator for zero
		m, bits = m*2, bits+1
	}
	tau = secret(c.Salt, "tau")
	rem := new(big.Int).Sub(r, big.NewInt(1))
	s := 0
	for rem.Bit(0) == 0 {
		rem.Rsh(rem, 1)
		s++
	}
	w := pow(big.NewInt(5), rem)
	for ; s > bits; s-- {
		w = mul(w, w)
	}
	z = mod(new(big.Int).Sub(pow(tau, big.NewInt(int64(m))), big.NewInt(1)))
	// constraint j: signal j times one is signal j
	l = make([]*big.Int, n)
	sum = new(big.Int)
	wj := big.NewInt(1)
	for j := range l {
		d := mul(big.NewInt(int64(m)), mod(new(big.Int).Sub(tau, wj)))
		l[j] = mul(mul(wj, z), inv(d))
		sum = add(sum, l[j])
		wj = mul(wj, w)
	}
	return m, tau, z, l, sum
}

// Keys are the keys as the JSON files that snarkjs writes.
func (c Circuit) Keys() (pkJSON, vkJSON []byte) {
	n, np := c.nVars(), c.nPublic()
	m, tau, z, l, sum := c.rows()
	alpha, beta, gamma, delta := secret(c.Salt, "alpha"), secret(c.Salt, "beta"), secret(c.Salt, "gamma"), secret(c.Salt, "delta")
	pk := parsers.PkString{NVars: n, NPublic: np, DomainSize: m,
		VkAlpha1: g1s(alpha), VkDelta1: g1s(delta), VkBeta1: g1s(beta), VkBeta2: g2s(beta), VkDelta2: g2s(delta)}
	vk := parsers.VkString{Alpha: g1s(alpha), Beta: g2s(beta), Gamma: g2s(gamma), Delta: g2s(delta)}
	one := map[string]string{}
	for j := range l {
		one[big.NewInt(int64(j)).String()] = "1"
	}
	for i := range l {
		b := new(big.Int)
		pb := map[string]string{}
		if i == 0 {
			b, pb = sum, one
		}
		k := add(add(mul(beta, l[i]), mul(alpha, b)), l[i])
		pk.A = append(pk.A, g1s(l[i]))
		pk.B1 = append(pk.B1, g1s(b))
		pk.B2 = append(pk.B2, g2s(b))
		if i > np {
			pk.C = append(pk.C, g1s(mul(k, inv(delta))))
		} else {
			pk.C = append(pk.C, g1s(new(big.Int)))
			vk.IC = append(vk.IC, g1s(mul(k, inv(gamma))))
		}
		pk.PolsA = append(pk.PolsA, map[string]string{big.NewInt(int64(i)).String(): "1"})
		pk.PolsB = append(pk.PolsB, pb)
	}
	t := big.NewInt(1)
	for i := 0; i <= m; i++ {
		pk.HExps = append(pk.HExps, g1s(mul(mul(t, z), inv(delta))))
		t = mul(t, tau)
	}
	pkJSON, err := json.Marshal(pk)
	vh.Must(err)
	vkJSON, err = json.Marshal(vk)
	vh.Must(err)
	return pkJSON, vkJSON
}

func sum(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

// Write puts the files of the circuit in dir, in all the formats of the
// proving key that can be written, and returns their hashes by file name.
func (c Circuit) Write(dir string) map[string]string {
	pkJSON, vkJSON := c.Keys()
	pk, err := parsers.ParsePk(pkJSON)
	vh.Must(err)
	bin, err := parsers.PkToGoBin(pk)
	vh.Must(err)
	hashes := map[string]string{}
	for n, b := range map[string][]byte{"proving_key.json": pkJSON, "proving_key.go.bin": bin, "verification_key.json": vkJSON, "circuit.wasm": c.WASM()} {
		vh.Must(os.WriteFile(filepath.Join(dir, n), b, 0600))
		hashes[n] = sum(b)
	}
	return hashes
}

// Files writes the circuit in a new directory and opens it.
func (c Circuit) Files(cache bool) *zkutils.ZkFiles {
	dir, err := os.MkdirTemp("", "toyzk")
	vh.Must(err)
	h := c.Write(dir)
	return zkutils.NewZkFiles("http://127.0.0.1:1/none", dir, zkutils.ProvingKeyFormatGoBin, zkutils.ZkFilesHashes{
		ProvingKey: h["proving_key.go.bin"], VerificationKey: h["verification_key.json"], WitnessCalcWASM: h["circuit.wasm"]}, cache)
}

// Vk parses the verification key.
func (c Circuit) Vk() *zktypes.Vk {
	_, b := c.Keys()
	vk, err := parsers.ParseVk(b)
	vh.Must(err)
	return vk
}

// Forger makes proofs from the secrets of the circuit, without a witness.
type Forger struct {
	np                  int
	alphaBeta, deltaInv *big.Int
	k                   []*big.Int
}

// Forger prepares it.
func (c Circuit) Forger() *Forger {
	_, _, _, l, sum := c.rows()
	alpha, beta := secret(c.Salt, "alpha"), secret(c.Salt, "beta")
	f := &Forger{np: c.nPublic(), alphaBeta: mul(alpha, beta), deltaInv: inv(secret(c.Salt, "delta"))}
	for i := 0; i <= f.np; i++ {
		b := new(big.Int)
		if i == 0 {
			b = sum
		}
		f.k = append(f.k, add(add(mul(beta, l[i]), mul(alpha, b)), l[i]))
	}
	return f
}

// Proof makes a proof of public signals; a and b (not zero) make proofs of
// the same signals differ.
func (f *Forger) Proof(pub []*big.Int, a, b int64) *zktypes.Proof {
	x, y := big.NewInt(a), big.NewInt(b)
	s := new(big.Int).Set(f.k[0])
	for i, p := range pub {
		s = add(s, mul(mod(p), f.k[i+1]))
	}
	c := mul(mod(new(big.Int).Sub(mul(x, y), add(f.alphaBeta, s))), f.deltaInv)
	return &zktypes.Proof{A: g1(x), B: g2(y), C: g1(c)}
}
