package ks

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/accounts"
	ethkeystore "github.com/ethereum/go-ethereum/accounts/keystore"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/iden3/go-iden3-core/components/idensigner"
	"github.com/iden3/go-iden3-core/crypto"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/utils"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/poseidon"
	"pgregory.net/rapid"

	"verifharness/mtx"
	"verifharness/vh"
	"verifharness/world"
)

func elem(t *rapid.T) *big.Int { return mtx.Int(mtx.Elem(false).Draw(t, "element")) }

func eth8(v int64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(v))
	return b[:]
}

// roomy is a copy with room after it, filled, so that a write there shows.
func roomy(b []byte) ([]byte, func() bool) {
	r := make([]byte, len(b)+64)
	copy(r, b)
	for i := len(b); i < len(r); i++ {
		r[i] = 0xa5
	}
	orig := append([]byte(nil), r...)
	return r[:len(b)], func() bool { return bytes.Equal(r, orig) }
}

// TestK02_BabyJub: signatures verify for what was signed, and nothing else.
func TestK02_BabyJub(t *testing.T) {
	rec := vh.NewRec("K02_BabyJub", "elements, messages with prefix and date and raw messages are signed and verified as they are and with one thing changed, against the library; non-trivial: something changed")
	vh.Check(t, 2400, 60000, func(t *rapid.T) {
		sk := world.Key(rapid.IntRange(0, 5).Draw(t, "key"))
		ks, pk := world.NewKeyStore(sk)
		defer func() { _ = ks.Close() }()
		other := world.Key(7)
		opk := other.Public().Compress()
		kind := rapid.SampledFrom([]string{"elem", "raw", "dated", "signer", "signer dated"}).Draw(t, "kind")
		msg := rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "msg")
		prefix := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "prefix")
		m, mSame := roomy(msg)
		p, pSame := roomy(prefix)
		var sig *babyjub.SignatureComp
		var err error
		var date int64
		var signed *big.Int // what the signature is on
		before := time.Now().Unix()
		signer := idensigner.New(ks, *sk.Public())
		switch kind {
		case "elem":
			signed = elem(t)
			sig, err = ks.SignElem(pk, signed)
		case "raw":
			sig, err = ks.SignRaw(pk, m)
			signed = poseidon.HashBytes(msg)
		case "dated":
			sig, date, err = ks.Sign(pk, p, m)
			signed = poseidon.HashBytes(bytes.Join([][]byte{prefix, eth8(date), msg}, nil))
		case "signer":
			sig, err = signer.SignEthMsg(m)
			signed = poseidon.HashBytes(msg)
		case "signer dated":
			sig, date, err = signer.SignEthMsgDate(m)
			signed = poseidon.HashBytes(append(append([]byte(nil), msg...), eth8(date)...))
		}
		after := time.Now().Unix()
		if err != nil {
			t.Fatalf("signing (%s): %v", kind, err)
		}
		if strings.Contains(kind, "dated") && (date < before || date > after) {
			t.Fatalf("the date is %d, not between %d and %d", date, before, after)
		}
		if signer.PublicKey().Compress() != *pk {
			t.Fatalf("the signer has another key")
		}
		want := sk.SignPoseidon(signed).Compress()
		if *sig != want {
			t.Fatalf("the signature (%s) is %x, not %x", kind, sig[:], want[:])
		}
		if ok, err := keystore.VerifySignatureElem(pk, signed, sig); err != nil || !ok {
			t.Fatalf("a good signature (%s) of an element: %v %v", kind, ok, err)
		}
		// with one thing changed
		change := rapid.SampledFrom([]string{"", "msg", "prefix", "date", "key", "sig", "junk key", "no element"}).Draw(t, "change")
		vpk, vsig, vdate, vsigned := *pk, *sig, date, new(big.Int).Set(signed)
		flip := func(b []byte) bool {
			if len(b) == 0 {
				return false
			}
			b[rapid.IntRange(0, len(b)-1).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			return true
		}
		cm, cp := append([]byte(nil), msg...), append([]byte(nil), prefix...)
		changed := true
		must := true // be refused, with or without an error
		switch change {
		case "":
			changed = false
		case "msg":
			changed = flip(cm)
			if kind == "elem" {
				changed = true
				vsigned.Add(vsigned, big.NewInt(1)).Mod(vsigned, mtx.Q)
			}
		case "prefix":
			changed = kind == "dated" && flip(cp)
		case "date":
			vdate += rapid.SampledFrom([]int64{1, -1, 1 << 32, 256}).Draw(t, "seconds")
			changed = kind == "dated"
		case "key":
			vpk = opk
		case "sig":
			flip(vsig[:])
		case "junk key":
			flip(vpk[:])
			must = vpk != *pk
		case "no element":
			vsigned.Add(vsigned, mtx.Q)
			if rapid.Bool().Draw(t, "negative") {
				vsigned.Sub(signed, mtx.Q)
			}
			changed = kind == "elem"
			if vsigned.Sign() == 0 {
				changed = false
			}
		}
		var ok bool
		if msg := vh.Catch(func() {
			v, vSame := roomy(cm)
			w, wSame := roomy(cp)
			switch kind {
			case "elem":
				ok, err = keystore.VerifySignatureElem(&vpk, vsigned, &vsig)
			case "dated":
				ok, err = keystore.VerifySignature(&vpk, &vsig, w, vdate, v)
			case "signer dated":
				// the date follows the message
				v, vSame = roomy(append(append([]byte(nil), cm...), eth8(date)...))
				ok, err = keystore.VerifySignatureRaw(&vpk, &vsig, v)
			default:
				ok, err = keystore.VerifySignatureRaw(&vpk, &vsig, v)
			}
			if !vSame() || !wSame() {
				panic("verifying wrote into the caller's buffers")
			}
		}); msg != "" {
			t.Fatalf("verifying (%s, %s changed): %s", kind, change, msg)
		}
		if !changed && (err != nil || !ok) {
			t.Fatalf("a good signature (%s): %v %v", kind, ok, err)
		}
		if changed && must && ok {
			t.Fatalf("a signature (%s) is accepted with the %s changed", kind, change)
		}
		if !mSame() || !pSame() {
			t.Fatalf("signing (%s) wrote into the caller's buffers", kind)
		}
		rec.Label("%s: %s", kind, change)
		rec.Case(changed, "%s, %s changed, msg %x prefix %x %x", kind, change, msg, prefix, vsig[:6])
	})
}

// TestK02_NoElement: what is not an element is not signed.
func TestK02_NoElement(t *testing.T) {
	rec := vh.NewRec("K02_NoElement", "numbers around and beyond the field are signed; non-trivial: not in the field")
	ks, pk := world.NewKeyStore(world.Key(1))
	vh.Check(t, 400, 4000, func(t *rapid.T) {
		v := new(big.Int).SetInt64(rapid.Int64Range(-3, 3).Draw(t, "delta"))
		if rapid.Bool().Draw(t, "high") {
			v.Add(v, mtx.Q)
		}
		if rapid.IntRange(0, 3).Draw(t, "huge") == 0 {
			v.Lsh(v, uint(rapid.IntRange(1, 300).Draw(t, "bits")))
		}
		in := v.Sign() >= 0 && v.Cmp(mtx.Q) < 0
		var err error
		var sig *babyjub.SignatureComp
		if msg := vh.Catch(func() { sig, err = ks.SignElem(pk, v) }); msg != "" {
			t.Fatalf("signing %v crashed: %s", v, msg)
		}
		if in != (err == nil) {
			t.Fatalf("signing %v: %v %v", v, sig, err)
		}
		rec.Case(!in, "%v", v)
	})
}

var (
	accOnce sync.Once
	accKS   *ethkeystore.KeyStore
	accs    []accounts.Account
	privs   []*ecdsa.PrivateKey
)

func account() {
	accOnce.Do(func() {
		d, err := os.MkdirTemp("", "vhks")
		vh.Must(err)
		accKS = ethkeystore.NewKeyStore(d, 2, 1)
		for i := 1; i <= 2; i++ {
			k, err := ethcrypto.HexToECDSA(strings.Repeat(fmt.Sprintf("%02x", 17*i), 32))
			vh.Must(err)
			a, err := accKS.ImportECDSA(k, "p")
			vh.Must(err)
			vh.Must(accKS.Unlock(a, "p"))
			accs, privs = append(accs, a), append(privs, k)
		}
		_ = os.RemoveAll(d)
	})
}

// TestK02_Eth: signatures of Ethereum accounts.
func TestK02_Eth(t *testing.T) {
	account()
	rec := vh.NewRec("K02_Eth", "messages with and without a date are signed with an account, the signature kept as JSON, and verified as they are and with one thing changed; non-trivial: something changed")
	vh.Check(t, 4000, 80000, func(t *rapid.T) {
		a := accs[rapid.IntRange(0, 1).Draw(t, "account")]
		msg := rapid.SliceOfN(rapid.Byte(), 0, 120).Draw(t, "msg")
		date := rapid.SampledFrom([]int64{0, 1, 1600000000, -1, 1<<63 - 1}).Draw(t, "date")
		kind := rapid.SampledFrom([]string{"hash", "eth", "dated"}).Draw(t, "kind")
		full := append([]byte(nil), msg...)
		if kind == "dated" {
			full = append(full, eth8(date)...)
		}
		// what is signed, by the definition of the prefix
		hash := ethcrypto.Keccak256([]byte("\x19Ethereum Signed Message:\n"), []byte(fmt.Sprint(len(full))), full)
		if h := crypto.EthHash(full); !bytes.Equal(h[:], hash) {
			t.Fatalf("the hash of %x is %x, not %x", full, h[:], hash)
		}
		var sig crypto.SignatureEthMsg
		in, same := roomy(full)
		if kind == "hash" {
			var h crypto.Hash
			copy(h[:], hash)
			b, err := crypto.Sign(h, accKS, a)
			if err != nil {
				t.Fatalf("signing: %v", err)
			}
			copy(sig[:], b)
		} else {
			s, err := crypto.SignEthMsg(accKS, a, in)
			if err != nil {
				t.Fatalf("signing: %v", err)
			}
			sig = *s
		}
		off := byte(27)
		if kind == "hash" {
			off = 0
		}
		raw := append([]byte(nil), sig[:]...)
		raw[64] -= off
		if pub, err := ethcrypto.SigToPub(hash, raw); err != nil || ethcrypto.PubkeyToAddress(*pub) != a.Address {
			t.Fatalf("the signature (%s) %x is not of the account: %v", kind, sig[:], err)
		}
		js, err := json.Marshal(sig)
		if err != nil {
			t.Fatalf("writing: %v", err)
		}
		var back crypto.SignatureEthMsg
		if err := json.Unmarshal(js, &back); err != nil || back != sig {
			t.Fatalf("reading %s: %x (%v)", js, back[:], err)
		}
		s2 := crypto.Signature(sig)
		js2, err := json.Marshal(s2)
		var back2 crypto.Signature
		if err != nil || json.Unmarshal(js2, &back2) != nil || back2 != s2 || !bytes.Equal(js, js2) {
			t.Fatalf("reading %s: %x", js2, back2[:])
		}
		change := rapid.SampledFrom([]string{"", "msg", "date", "account", "sig", "v", "longer"}).Draw(t, "change")
		vmsg, vdate, vaddr := append([]byte(nil), msg...), date, a.Address
		changed := true
		switch change {
		case "":
			changed = false
		case "msg":
			if changed = len(vmsg) > 0; changed {
				vmsg[rapid.IntRange(0, len(vmsg)-1).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			}
		case "longer":
			vmsg = append(vmsg, rapid.Byte().Draw(t, "more"))
		case "date":
			vdate ^= 1 << rapid.IntRange(0, 62).Draw(t, "bit")
			changed = kind == "dated"
		case "account":
			vaddr[rapid.IntRange(0, 19).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			if rapid.Bool().Draw(t, "other") {
				vaddr = accs[0].Address
				if a.Address == vaddr {
					vaddr = accs[1].Address
				}
			}
		case "sig":
			back[rapid.IntRange(0, 63).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case "v":
			back[64] = rapid.Byte().Draw(t, "v")
			changed = back[64] != sig[64]
		}
		var ok bool
		if m := vh.Catch(func() {
			v, vSame := roomy(vmsg)
			given := back
			switch kind {
			case "hash":
				h := ethcrypto.Keccak256([]byte("\x19Ethereum Signed Message:\n"), []byte(fmt.Sprint(len(vmsg))), vmsg)
				sg := crypto.Signature(back)
				ok = crypto.VerifySig(vaddr, &sg, h)
				if crypto.VerifySig(vaddr, &sg, h[:rapid.IntRange(0, 31).Draw(t, "short")]) {
					panic("a signature of a short hash is accepted")
				}
			case "eth":
				ok = crypto.VerifySigEthMsg(vaddr, &back, v)
			case "dated":
				ok = crypto.VerifySigEthMsgDate(vaddr, &back, v, vdate)
			}
			if !vSame() || back != given {
				panic("verifying wrote into the caller's buffer")
			}
		}); m != "" {
			t.Fatalf("verifying (%s, %s changed): %s", kind, change, m)
		}
		if ok == changed {
			t.Fatalf("a signature (%s) with %q changed: accepted %v", kind, change, ok)
		}
		if !same() {
			t.Fatalf("signing wrote into the caller's buffer")
		}
		pk, err := crypto.GetPkFromKeyStore(accKS, a.Address)
		if err != nil || ethcrypto.PubkeyToAddress(*pk) != a.Address {
			t.Fatalf("the public key of the account: %v %v", pk, err)
		}
		jp, err := json.Marshal(crypto.PublicKey{PublicKey: *pk})
		var bp crypto.PublicKey
		if err != nil || json.Unmarshal(jp, &bp) != nil || bp.X.Cmp(pk.X) != 0 || bp.Y.Cmp(pk.Y) != 0 {
			t.Fatalf("the public key read from %s is %v", jp, bp)
		}
		rec.Label("%s: %s", kind, change)
		rec.Case(changed, "%s %s %x %d", kind, change, msg, date)
	})
}

// TestK02_Junk: junk is no signature and no key, and does no harm.
func TestK02_Junk(t *testing.T) {
	rec := vh.NewRec("K02_Junk", "JSON of signatures and public keys cut, with other characters or random; non-trivial: it is refused")
	pk, _ := json.Marshal(crypto.PublicKey{PublicKey: *mustKey()})
	vh.Check(t, 4000, 80000, func(t *rapid.T) {
		s := []byte(`"0x` + strings.Repeat("5a", 65) + `"`)
		if rapid.Bool().Draw(t, "key") {
			s = append([]byte(nil), pk...)
		}
		switch rapid.IntRange(0, 4).Draw(t, "how") {
		case 0:
			s = s[:rapid.IntRange(0, len(s)).Draw(t, "length")]
		case 1:
			i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
			s[i] = rapid.SampledFrom([]byte(`0fg"x`)).Draw(t, "char")
		case 2:
			i := rapid.IntRange(1, len(s)-1).Draw(t, "at")
			s = append(s[:i:i], s[rapid.IntRange(i, len(s)-1).Draw(t, "to"):]...)
		case 3:
			s = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "junk")
		}
		var sig crypto.Signature
		var sem crypto.SignatureEthMsg
		var p crypto.PublicKey
		var e1, e2, e3 error
		if m := vh.Catch(func() {
			e1, e2, e3 = json.Unmarshal(s, &sig), json.Unmarshal(s, &sem), json.Unmarshal(s, &p)
		}); m != "" {
			t.Fatalf("reading %q: %s", s, m)
		}
		if (e1 == nil) != (e2 == nil) {
			t.Fatalf("reading %q: %v and %v", s, e1, e2)
		}
		if e1 == nil && string(s) != "null" {
			js, _ := json.Marshal(sig)
			if !strings.EqualFold(strings.TrimPrefix(strings.Trim(string(js), `"`), "0x"), strings.TrimPrefix(strings.Trim(string(s), `"`), "0x")) {
				t.Fatalf("%q is read as %s", s, js)
			}
		}
		if e3 == nil && string(s) != "null" {
			if !p.Curve.IsOnCurve(p.X, p.Y) {
				t.Fatalf("%q is read as a key that is not on the curve", s)
			}
			js, err := json.Marshal(p)
			if err != nil || !strings.EqualFold(strings.TrimPrefix(strings.Trim(string(js), `"`), "0x"), strings.TrimPrefix(strings.Trim(string(s), `"`), "0x")) {
				t.Fatalf("%q is read as the key %s", s, js)
			}
		}
		rec.Case(e1 != nil && e3 != nil, "%q", s)
	})
}

func mustKey() *ecdsa.PublicKey {
	account()
	return &privs[0].PublicKey
}

// TestK02_Timestamp: a time is recent or not.
func TestK02_Timestamp(t *testing.T) {
	rec := vh.NewRec("K02_Timestamp", "times before and after the limit, at least 3 seconds away from it, and in the future; non-trivial: not in the future")
	vh.Check(t, 4000, 40000, func(t *rapid.T) {
		limit := rapid.IntRange(0, 100000).Draw(t, "limit")
		away := rapid.Int64Range(3, 1<<33).Draw(t, "away")
		now := time.Now().Unix()
		old := now - int64(limit) - away
		young := now - int64(limit) + away
		if utils.VerifyTimestamp(old, limit) {
			t.Fatalf("a time %d s ago is within the last %d s", now-old, limit)
		}
		if !utils.VerifyTimestamp(young, limit) {
			t.Fatalf("a time %d s ago is not within the last %d s", now-young, limit)
		}
		rec.Case(young <= now, "%d %d", limit, away)
	})
}

// TestK02_Tick: what is signed while the clock goes to the next second
// verifies with the date that is given back.
func TestK02_Tick(t *testing.T) {
	rec := vh.NewRec("K02_Tick", "goroutines sign with dates without a pause for some seconds of the clock, and each signature that was made while the second changed is verified with the date it came with, and with the others next to it; non-trivial: the second changed between the call and its return")
	secs := 3
	if vh.Thorough() {
		secs = 30
	}
	type made struct {
		who, dated int
		date       int64
		sig        *babyjub.SignatureComp
		tick       bool
	}
	sk := world.Key(3)
	ks, pk := world.NewKeyStore(sk)
	defer func() { _ = ks.Close() }()
	prefix, msg := []byte("prefix"), []byte("message")
	signer := idensigner.New(ks, *sk.Public())
	var mu sync.Mutex
	var all []made
	var wg sync.WaitGroup
	var failed error
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for g := 0; g < 3; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; time.Now().Before(end); i++ {
				m := made{who: g, dated: i % 2}
				from := time.Now().Unix()
				var err error
				if m.dated == 0 {
					m.sig, m.date, err = ks.Sign(pk, prefix, msg)
				} else {
					m.sig, m.date, err = signer.SignEthMsgDate(msg)
				}
				to := time.Now().Unix()
				m.tick = from != to
				if err == nil && (m.date < from || m.date > to) {
					err = fmt.Errorf("the date is %d, not between %d and %d", m.date, from, to)
				}
				mu.Lock()
				if err != nil {
					failed = err
				}
				if err == nil && (m.tick || i < 3) {
					all = append(all, m)
				}
				mu.Unlock()
				if !m.tick {
					rec.Label("within a second")
				}
			}
		}(g)
	}
	wg.Wait()
	if failed != nil {
		t.Fatalf("signing with a date: %v", failed)
	}
	for i, m := range all {
		for d := int64(-1); d <= 1; d++ {
			var signed []byte
			if m.dated == 0 {
				signed = bytes.Join([][]byte{prefix, eth8(m.date + d), msg}, nil)
			} else {
				signed = bytes.Join([][]byte{msg, eth8(m.date + d)}, nil)
			}
			ok, err := keystore.VerifySignatureRaw(pk, m.sig, signed)
			if m.dated == 0 {
				ok2, err2 := keystore.VerifySignature(pk, m.sig, prefix, m.date+d, msg)
				if ok2 != ok || (err == nil) != (err2 == nil) {
					t.Fatalf("a dated signature: %v %v, but of its bytes %v %v", ok2, err2, ok, err)
				}
			}
			if err != nil || ok != (d == 0) {
				t.Fatalf("signature %d came with the date %d and verifies (%v, %v) for %d seconds later", i, m.date, ok, err, d)
			}
		}
		rec.Case(m.tick, "goroutine %d, kind %d, %d", m.who, m.dated, m.date)
	}
}
