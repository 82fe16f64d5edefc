package idt

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"
	"time"

	"verifharness/faultdb"
	"verifharness/mtx"
	"verifharness/vh"
	"verifharness/world"

	"github.com/iden3/go-iden3-core/components/idensigner"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/poseidon"
	"pgregory.net/rapid"
)

// TestS09_SideBySide: identities that share a storage, a key store, a chain
// and a place to publish to don't affect each other.
func TestS09_SideBySide(t *testing.T) {
	rec := vh.NewRec("S09_SideBySide", "2 or 3 issuers in one storage (in memory or on disk, each under its prefix), with one key store, chain and place to publish to, that issue the same claims and take turns for 6 to 36 steps; after every step all of them are compared with their own models; non-trivial: 2 of them have a state on the chain")
	vh.Check(t, 240, 6000, func(t *rapid.T) {
		chain := world.NewChain(rapid.Uint64Range(1, 1000).Draw(t, "block"), start)
		box := faultdb.NewBox(rapid.SampledFrom([]string{"mem", "mem", "memprefix", "level"}).Draw(t, "storage"), []byte("all"))
		defer box.Close()
		off := world.NewOff(rapid.SampledFrom([]string{"record", "local"}).Draw(t, "offchain"), 9)
		ks, err := keystore.NewKeyStore(&keystore.MemStorage{}, keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1})
		vh.Must(err)
		defer func() { _ = ks.Close() }()
		prefixes := [][]string{{"iden0:", "iden1:", "iden2:"}, {"\x00", "\x01", "\xff"}, {"x", "y", "z"}}[rapid.IntRange(0, 2).Draw(t, "prefixes")]
		under := func(i int) db.Storage {
			s := box.Storage().WithPrefix([]byte(prefixes[i]))
			if prefixes[0] == "x" {
				s = s.WithPrefix([]byte("same"))
			}
			return s
		}
		var hs []*hist
		checkAll := func(what string) {
			for i, h := range hs {
				if err := h.x.CheckState(); err != nil {
					t.Fatalf("after %s, identity %d: %v", what, i, err)
				}
			}
		}
		key := rapid.IntRange(0, 15).Draw(t, "key")
		for i := rapid.SampledFrom([]int{2, 2, 3}).Draw(t, "identities"); i > 0; i-- {
			h := &hist{t: t, seen: map[string]int{}, box: box}
			cfg := drawCfg(t)
			var extra []world.Spec
			for j := rapid.IntRange(0, 2).Draw(t, "extra"); j > 0; j-- {
				extra = append(extra, world.DrawSpec(t, exps))
			}
			i0 := len(hs)
			x, ok, err := world.CreateIn(ks, chain, off, under(i0), cfg, key+i0, extra)
			if (err == nil) != ok {
				t.Fatalf("creating an identity with %v: %v", extra, err)
			}
			if err != nil {
				rec.Label("genesis refused")
				return
			}
			h.x = x
			h.fatal(x.Load())
			hs = append(hs, h)
			// one that does the same with everything of its own
			twin, _, err := world.CreateIn(nil, world.NewChain(5, start), world.NewOff("record", 9), db.NewMemoryStorage(), cfg, key+i0, extra)
			if err != nil || twin.ID != x.ID {
				t.Fatalf("an identity with the same genesis has the identifier %x, not %x (%v)", twin.ID[:], x.ID[:], err)
			}
			h.fatal(twin.Load())
			x.OnIssue = func(s world.Spec, nonce uint32, err error) error {
				c := s.Build()
				if err2 := twin.Is.IssueClaim(c); (err2 == nil) != (err == nil) {
					return fmt.Errorf("issuing %v: %v, by an identity with the same history alone: %v", s, err, err2)
				} else if n := c.Metadata().RevNonce; err == nil && n != nonce {
					return fmt.Errorf("the nonce of %v is %d, by an identity with the same history alone %d", s, nonce, n)
				}
				return nil
			}
			checkAll("a creation")
		}
		w := map[string]int{"issue": 5, "revoke": 3, "publish": 4, "sync": 3, "mine": 3, "confirm": 3, "credential": 2, "round": 2}
		var turns []string
		for n := rapid.SampledFrom([]int{6, 12, 24, 36}).Draw(t, "steps"); n > 0; n-- {
			i := rapid.IntRange(0, len(hs)-1).Draw(t, "who")
			turns = append(turns, fmt.Sprint(i))
			if rapid.IntRange(0, 9).Draw(t, "reopen") == 0 {
				box.Reopen()
				for j, h := range hs {
					h.x.Store = under(j)
					h.fatal(h.x.Load())
					h.did("reopened: " + h.x.Synced())
				}
				checkAll("reopening")
				continue
			}
			hs[i].step(w, ops)
			checkAll(fmt.Sprintf("a step of identity %d", i))
		}
		on := 0
		for i, h := range hs {
			if len(chain.Hist[h.x.ID]) > 0 {
				on++
			}
			for _, s := range chain.Hist[h.x.ID] {
				found := false
				for _, l := range h.x.List {
					found = found || l.S == s.S
				}
				if !found || off.Find(h.x.ID, s.S) == nil {
					h.fatal(fmt.Errorf("state %x on the chain is not of the history of identity %d (%v) or is not published", s.S, i, found))
				}
			}
			// all its claims, and none of the others'
			for _, is := range h.x.Issued {
				_, what, err := h.x.Credential(is.C)
				h.fatal(err)
				h.did(what)
			}
			for _, o := range hs {
				for _, is := range o.x.Issued {
					_, _, err := h.x.Credential(world.Ent{E: is.E})
					h.fatal(err)
				}
			}
			for k, v := range h.seen {
				for j := 0; j < v; j++ {
					rec.Label("%s", k)
				}
			}
		}
		rec.Label("%d identities", len(hs))
		rec.Case(on > 1, "%v %v", turns, hs[0].trace)
	})
}

// TestS10_Signing: what an identity signs verifies with the key of its
// genesis.
func TestS10_Signing(t *testing.T) {
	rec := vh.NewRec("S10_Signing", "1 to 3 issuers, holders and signers with keys of one key store sign bytes under prefixes, elements (also outside of the field), state transitions and dated messages, before and after they issued, were opened again, and while the keys are locked; signatures verified by the library with the key in the genesis claim, the keys of the others, and other contents; non-trivial: 2 identities, or signed after opening again")
	vh.Check(t, 1200, 40000, func(t *rapid.T) {
		chain := world.NewChain(5, start)
		ms := &keystore.MemStorage{}
		par := keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}
		ks, err := keystore.NewKeyStore(ms, par)
		vh.Must(err)
		base := db.NewMemoryStorage()
		type who struct {
			x     *world.Ident
			ho    *holder.Holder
			st    db.Storage
			trees int
		}
		var ws []*who
		n := rapid.SampledFrom([]int{1, 2, 3}).Draw(t, "identities")
		for i := 0; i < n; i++ {
			w := &who{st: base.WithPrefix([]byte{byte(i)})}
			kind := rapid.SampledFrom([]string{"issuer", "genesis", "holder"}).Draw(t, "kind")
			cfg := issuer.ConfigDefault
			cfg.GenesisOnly = kind != "issuer"
			if kind == "holder" {
				// made by the package of holders
				sk := world.Key(30 + i)
				pk, err := ks.ImportKey(sk, world.Pass)
				vh.Must(err)
				vh.Must(ks.UnlockKey(pk, world.Pass))
				s := world.DrawSpec(t, exps)
				c := s.Build()
				id, err := holder.Create(holder.ConfigDefault, pk, []claims.Claimer{c}, w.st, ks)
				kop := claims.NewClaimKeyBabyJub(sk.Public(), claims.BabyJubKeyTypeAuthorizeKSign)
				ke := mtx.FromE(&kop.Entry().Data)
				set := mtx.Set{ke.Hi(): ke}
				e := s.Entry(c.Metadata().RevNonce)
				if err != nil {
					if _, dup := set[e.Hi()]; !dup && set.Fits(e.Hi(), holder.ConfigDefault.MaxLevelsClaimsTree) {
						t.Fatalf("making a holder with %v: %v", s, err)
					}
					rec.Label("genesis refused")
					return
				}
				set[e.Hi()] = e
				rl := world.RootLeaf(set.Root())
				st := mtx.MustPoseidon(set.Root(), world.H{}, mtx.Set{rl.Hi(): rl}.Root())
				w.x = &world.Ident{Sk: sk, K: pk, KS: ks, KOpEntry: ke}
				w.x.ID = world.IDOf(st, *id)
				if *id != w.x.ID {
					t.Fatalf("the identifier is %x, should be %x", id[:], w.x.ID[:])
				}
			} else {
				x, ok, err := world.CreateIn(ks, chain, world.NewOff("record", 3), w.st, cfg, 30+i, nil)
				if err != nil || !ok {
					t.Fatalf("creating: %v", err)
				}
				w.x = x
			}
			ws = append(ws, w)
		}
		load := func(w *who) {
			ho, err := holder.Load(w.st, ks, chain, world.ZkConf(), world.NewOff("record", 3), nil)
			if err != nil {
				t.Fatalf("loading: %v", err)
			}
			w.ho = ho
			if *ho.ID() != w.x.ID || *ho.KeyOperational() != *w.x.K {
				t.Fatalf("the identity loads as %v with the key %v", ho.ID(), ho.KeyOperational())
			}
		}
		for _, w := range ws {
			load(w)
		}
		// the key in the claim of the genesis
		keyOf := func(w *who) *babyjub.PublicKey {
			return &babyjub.PublicKey{X: mtx.Int(w.x.KOpEntry[2]), Y: mtx.Int(w.x.KOpEntry[3])}
		}
		locked, again, signed := false, false, 0
		var log []string
		num := func(l string) *big.Int {
			switch rapid.IntRange(0, 5).Draw(t, l+" kind") {
			case 0:
				return big.NewInt(rapid.Int64Range(0, 3).Draw(t, l))
			case 1:
				return new(big.Int).Sub(mtx.Q, big.NewInt(rapid.Int64Range(1, 3).Draw(t, l)))
			}
			return new(big.Int).Mod(new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 1, 32).Draw(t, l)), mtx.Q)
		}
		for steps := rapid.IntRange(1, 10).Draw(t, "steps"); steps > 0; steps-- {
			w := ws[rapid.IntRange(0, len(ws)-1).Draw(t, "who")]
			op := rapid.SampledFrom([]string{"binary", "binary", "state", "elems", "elems", "outside", "signer", "dated", "not available", "again", "again locked", "unlock"}).Draw(t, "op")
			log = append(log, op)
			var sig *babyjub.SignatureComp
			var on *big.Int
			var err error
			before, rootsBefore := w.ho.State()
			sb, rb := *before, *rootsBefore.ClaimsTreeRoot
			switch op {
			case "binary":
				p, m := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "prefix"), rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "msg")
				pr := append(make([]byte, 0, 200), p...)
				mr := append(make([]byte, 0, 200), m...)
				sig, err = w.ho.SignBinary(pr, mr)
				if !bytes.Equal(pr[:cap(pr)][:len(p)], p) || !bytes.Equal(mr, m) || !bytes.Equal(pr[len(p):cap(pr)], make([]byte, cap(pr)-len(p))) {
					t.Fatalf("signing wrote into the caller's buffers")
				}
				on = poseidon.HashBytes(append(append([]byte(nil), p...), m...))
			case "state":
				a, b := num("old"), num("new")
				sig, err = w.ho.SignState(merkletree.NewHashFromBigInt(a), merkletree.NewHashFromBigInt(b))
				pre := make([]byte, 31)
				copy(pre, "setstate:")
				for i, j := 0, 30; i < j; i, j = i+1, j-1 {
					pre[i], pre[j] = pre[j], pre[i]
				}
				z := new(big.Int)
				var perr error
				on, perr = poseidon.PoseidonHash([poseidon.T]*big.Int{new(big.Int).SetBytes(pre), a, b, z, z, z})
				vh.Must(perr)
			case "elems", "outside":
				var es [poseidon.T]*big.Int
				for i := range es {
					es[i] = num(fmt.Sprint("e", i))
				}
				if op == "outside" {
					i := rapid.IntRange(0, len(es)-1).Draw(t, "which")
					es[i] = new(big.Int).Add(es[i], mtx.Q)
					_, err := w.ho.SignElems(es)
					if err == nil {
						t.Fatalf("a number outside of the field was signed: %v", es)
					}
					continue
				}
				sig, err = w.ho.SignElems(es)
				var perr error
				on, perr = poseidon.PoseidonHash(es)
				vh.Must(perr)
			case "signer", "dated":
				m := rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "msg")
				s := idensigner.New(ks, *keyOf(w))
				if op == "signer" {
					sig, err = s.SignEthMsg(m)
					on = poseidon.HashBytes(m)
				} else {
					var date int64
					from := time.Now().Unix()
					sig, date, err = s.SignEthMsgDate(m)
					if err == nil && (date < from || date > time.Now().Unix()) {
						t.Fatalf("the date is %d", date)
					}
					var d [8]byte
					for i := range d {
						d[7-i] = byte(uint64(date) >> (8 * i))
					}
					on = poseidon.HashBytes(append(append([]byte(nil), m...), d[:]...))
				}
			case "not available":
				if s, err := w.ho.Sign("x"); err == nil {
					t.Fatalf("Sign gives %q", s)
				}
				hi := w.x.KOpEntry.Hi()
				if err := w.ho.UpdateClaim(mtx.Hash(hi), []merkletree.ElemBytes{{1}}); err == nil {
					t.Fatalf("UpdateClaim does something")
				}
			case "again", "again locked":
				if err := ks.Close(); err != nil {
					t.Fatalf("closing the key store: %v", err)
				}
				if _, err := w.ho.SignBinary(nil, []byte("x")); err == nil {
					t.Fatalf("an identity signs after its key store was closed")
				}
				if ks, err = keystore.NewKeyStore(ms, par); err != nil {
					t.Fatalf("opening the key store: %v", err)
				}
				locked = op == "again locked"
				for _, v := range ws {
					if !locked {
						if err := ks.UnlockKey(v.x.K, world.Pass); err != nil {
							t.Fatalf("unlocking: %v", err)
						}
					}
					load(v)
				}
				again = true
			case "unlock":
				for _, v := range ws {
					if err := ks.UnlockKey(v.x.K, world.Pass); err != nil {
						t.Fatalf("unlocking: %v", err)
					}
				}
				locked = false
			}
			if after, ra := w.ho.State(); *after != sb || *ra.ClaimsTreeRoot != rb {
				t.Fatalf("%s changed the state of the identity", op)
			}
			if on == nil {
				continue
			}
			if locked {
				if err == nil {
					t.Fatalf("%s with a locked key", op)
				}
				rec.Label("locked")
				continue
			}
			if err != nil {
				t.Fatalf("%s: %v", op, err)
			}
			s, err := sig.Decompress()
			if err != nil {
				t.Fatalf("%s: the signature is none: %v", op, err)
			}
			for _, v := range ws {
				if ok := keyOf(v).VerifyPoseidon(on, s); ok != (v == w) {
					t.Fatalf("%s: with the key of the identity (%v) the signature verifies: %v", op, v == w, ok)
				}
			}
			other := new(big.Int).Mod(new(big.Int).Add(on, big.NewInt(1)), mtx.Q)
			if keyOf(w).VerifyPoseidon(other, s) {
				t.Fatalf("%s: the signature verifies for something else", op)
			}
			signed++
			rec.Label("%s", op)
		}
		_ = ks.Close()
		rec.LabelIf(again, "opened again")
		rec.Case(signed > 0 && (n > 1 || again), "%d %v", n, log)
	})
}
