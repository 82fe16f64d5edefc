package idt

import (
	"encoding/json"
	"fmt"
	"math/big"
	"testing"
	"time"

	"verifharness/mtx"
	"verifharness/toyzk"
	"verifharness/vh"
	"verifharness/world"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"pgregory.net/rapid"
)

// held is a credential that the holder got at some time.
type held struct {
	is   *world.Issued
	cred *proof.CredentialExistence
	at   int // the state in the list of the issuer
	n    uint64
}

// ring is an issuer with its history, a holder and what the holder has.
type ring struct {
	*hist
	ho   *world.Ident
	have []held
}

func beginRing(t *rapid.T) *ring {
	chain := world.NewChain(rapid.Uint64Range(1, 1000).Draw(t, "block"), start)
	h := begin(t, chain, rapid.IntRange(0, 20).Draw(t, "key"))
	if h == nil {
		return nil
	}
	cfg := issuer.ConfigDefault
	cfg.GenesisOnly = true
	var extra []world.Spec
	for i := rapid.IntRange(0, 2).Draw(t, "holder claims"); i > 0; i-- {
		s := world.DrawSpec(t, exps)
		s.I += byte(20 * i)
		extra = append(extra, s)
	}
	ho, ok, err := world.Create(chain, nil, db.NewMemoryStorage(), cfg, 40+rapid.IntRange(0, 20).Draw(t, "holder key"), extra)
	if err != nil {
		if ok {
			t.Fatalf("creating a holder with %v: %v", extra, err)
		}
		h.box.Close()
		return nil
	}
	if err := ho.LoadHolder(h.x.Off); err != nil {
		t.Fatalf("loading a holder: %v", err)
	}
	return &ring{hist: h, ho: ho}
}

// through sends a value through JSON.
func through(t *rapid.T, from, to interface{}) {
	b, err := json.Marshal(from)
	if err == nil {
		err = json.Unmarshal(b, to)
	}
	if err != nil {
		t.Fatalf("through JSON: %v\n%s", err, b)
	}
}

// collect asks for a credential of every claim under the state on the chain.
func (r *ring) collect() {
	for _, is := range r.x.Issued {
		if rapid.IntRange(0, 2).Draw(r.t, "ask") == 0 {
			continue
		}
		cred, what, err := r.x.Credential(is.C)
		r.fatal(err)
		if what != "credential" {
			continue
		}
		var c proof.CredentialExistence
		through(r.t, cred, &c)
		r.fatal(r.x.CheckCred(&c, is.E, r.x.List[r.x.OnChain], r.x.OnChainAt))
		r.have = append(r.have, held{is, &c, r.x.OnChain, r.x.OnChainAt.N})
	}
}

// round issues, revokes, publishes and waits for the confirmation, or not.
func (r *ring) round() {
	for i := rapid.IntRange(0, 3).Draw(r.t, "issue"); i > 0; i-- {
		r.issue()
	}
	for i := rapid.IntRange(0, 2).Draw(r.t, "revoke"); i > 0; i-- {
		r.revoke()
	}
	r.publish()
	switch rapid.IntRange(0, 6).Draw(r.t, "stall") {
	default:
		r.mine(1+int(r.x.Cfg.ConfirmBlocks), "all")
		r.sync()
	case 0:
		r.mine(1, "all")
		r.log("not synchronized")
	case 1:
		r.did("left pending") // published off chain, not on the chain yet
	}
	r.fatal(r.x.CheckState())
	r.collect()
}

// latest is the state on the chain now, with the trees behind it.
func (r *ring) latest() (world.State, world.Snap) {
	s, ok := r.x.Chain.Latest(r.x.ID)
	if ok {
		for _, l := range r.x.List {
			if l.S == s.S {
				return s, l
			}
		}
	}
	r.fatal(fmt.Errorf("there is no state on the chain, or an unknown one"))
	return s, world.Snap{}
}

// validity asks for a credential of validity; nil when it is refused, as it
// must be.
func (r *ring) validity(h held) *proof.CredentialValidity {
	at, st := r.latest()
	rev := world.Rev(h.is.Nonce)
	_, revoked := st.Revs[rev.Hi()]
	r.log("validity of %v from state %d", h.is.Spec, h.at)
	cv, err := r.ho.Ho.HolderGetCredentialValidity(h.cred)
	switch {
	case !r.x.Off.Available(r.x.ID, at.S):
		if err == nil {
			r.fatal(fmt.Errorf("validity without the data of the state"))
		}
		r.did("state not available")
		return nil
	case revoked:
		if err != holder.ErrRevokedClaim {
			r.fatal(fmt.Errorf("validity of a revoked claim: %v", err))
		}
		r.did("validity of revoked claim")
		return nil
	case err != nil:
		r.fatal(fmt.Errorf("no validity: %v", err))
	}
	r.did("validity")
	var c proof.CredentialValidity
	through(r.t, cv, &c)
	np := st.Revs.Proof(rev.Hi())
	r.fatal(r.x.CheckCred(&c.CredentialExistence, h.is.E, r.x.List[h.at], world.State{N: h.n, Ts: h.cred.IdenStateData.BlockTs, S: r.x.List[h.at].S}))
	if !at.Same(&c.IdenStateData) || string(c.MtpNotNonce.Bytes()) != string(np.Bytes()) || world.H(*c.ClaimsTreeRoot) != st.Clr || world.H(*c.RootsTreeRoot) != st.Ror {
		r.fatal(fmt.Errorf("validity is %+v, should be of %+v %+v %x %x", c, at, np, st.Clr, st.Ror))
	}
	return &c
}

// TestS03_EndToEnd: a claim issued, published and not revoked can be shown by
// its holder to a verifier at any later time; a revoked one can't.
func TestS03_EndToEnd(t *testing.T) {
	rec := vh.NewRec("S03_EndToEnd", "histories of an issuer with 1 to 5 published states; the holder gets credentials along the way, completes them later with the data published off chain (recorder, local, or over HTTP), and a verifier sees them at chosen times; all through JSON; non-trivial: at least 3 credentials of validity were shown")
	vh.Check(t, 400, 10000, func(t *rapid.T) {
		r := beginRing(t)
		if r == nil {
			rec.Label("genesis refused")
			return
		}
		defer r.box.Close()
		type shown struct {
			c  *proof.CredentialValidity
			at world.State
			h  held
		}
		var valid []shown
		// one verifier sees all of it: what it saw before decides nothing
		var now time.Time
		v := verifier.NewWithTimeNow(r.x.Chain, func() time.Time { return now })
		show := func(s shown) {
			exp, expires := s.h.is.Spec.Expires()
			fresh := rapid.SampledFrom([]time.Duration{0, 50 * time.Second, 500 * time.Second, time.Hour}).Draw(t, "freshness")
			now = time.Unix(r.x.Chain.Ts+rapid.SampledFrom([]int64{0, 1, 60, 600, 5000}).Draw(t, "later"), 1)
			if err := v.VerifyCredentialExistence(&s.c.CredentialExistence); err != nil {
				r.fatal(fmt.Errorf("the existence of %v is refused: %v", s.h.is.Spec, err))
			}
			hit := false
			if rapid.IntRange(0, 4).Draw(t, "chain fails") == 0 {
				call := rapid.SampledFrom([]string{"GetState", "GetStateByBlock"}).Draw(t, "failing call")
				r.x.Chain.Fault = func(c string) (bool, bool) {
					hit = hit || c == call
					return c == call, false
				}
				defer func() { r.x.Chain.Fault = nil }()
			}
			l, _ := r.x.Chain.Latest(r.x.ID)
			want := (!expires || exp >= now.Unix()+1) && (l == s.at || now.Add(-fresh).Before(time.Unix(s.at.Ts, 0)))
			if err := v.VerifyCredentialValidity(s.c, fresh); (err == nil) != want && !(hit && err != nil) {
				r.fatal(fmt.Errorf("the validity of %v at %v (state of %v, last of %v, expires %v %v, freshness %v): %v", s.h.is.Spec, now.Unix(), s.at.Ts, l.Ts, expires, exp, fresh, err))
			}
			if want {
				r.did("shown")
			} else {
				r.did("refused")
			}
		}
		for n := rapid.IntRange(1, 5).Draw(t, "rounds"); n > 0; n-- {
			r.round()
			for i := rapid.IntRange(0, 3).Draw(t, "validities"); i > 0 && len(r.have) > 0; i-- {
				h := rapid.SampledFrom(r.have).Draw(t, "held")
				at, _ := r.latest()
				if c := r.validity(h); c != nil {
					valid = append(valid, shown{c, at, h})
				}
			}
			for _, s := range valid {
				if rapid.Bool().Draw(t, "show") {
					show(s)
				}
			}
		}
		for _, h := range r.have {
			at, _ := r.latest()
			if c := r.validity(h); c != nil {
				valid = append(valid, shown{c, at, h})
			}
		}
		for _, s := range valid {
			show(s)
		}
		// whoever answers with the data of another state convinces nobody
		for _, p := range r.x.Off.Pubs {
			if len(r.have) == 0 {
				break
			}
			at, _ := r.latest()
			if p.State == at.S || !r.x.Off.Available(r.x.ID, p.State) {
				continue
			}
			st := p.State
			r.x.Off.Stale = &st
			h := rapid.SampledFrom(r.have).Draw(t, "held for stale")
			cv, err := r.ho.Ho.HolderGetCredentialValidity(h.cred)
			r.x.Off.Stale = nil
			if err == nil {
				r.fatal(fmt.Errorf("validity of %v out of the data of another state than the one on the chain: %+v", h.is.Spec, cv))
			}
			r.did("stale data")
		}
		for k, v := range r.seen {
			for i := 0; i < v; i++ {
				rec.Label("%s", k)
			}
		}
		rec.Case(r.seen["shown"] >= 3, "%v", r.trace)
	})
}

func padded(sib []world.H, n int) (r []*big.Int) {
	for i := 0; i < n; i++ {
		v := new(big.Int)
		if i < len(sib) {
			v = mtx.Int(sib[i])
		}
		r = append(r, v)
	}
	return r
}

func sameInts(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// inputs are the inputs of the circuit by definition, by name. depth is how
// many levels they need.
func (r *ring) inputs(h held, idLevels, isLevels int) (in map[string][]*big.Int, idDepth, isDepth int) {
	at, st := r.latest()
	_ = at
	one := func(x world.H) []*big.Int { return []*big.Int{mtx.Int(x)} }
	gen := r.ho.List[0]
	kop := gen.Claims.Proof(r.ho.KOpEntry.Hi())
	ex := r.x.List[h.at]
	ep := ex.Claims.Proof(h.is.Hi)
	np := st.Revs.Proof(world.Rev(h.is.Nonce).Hi())
	rp := st.Roots.Proof(world.RootLeaf(ex.Clr).Hi())
	if !rp.Existence {
		r.fatal(fmt.Errorf("the model lacks a root of the claims tree"))
	}
	noAux := big.NewInt(1)
	if np.Aux {
		noAux = new(big.Int)
	}
	var claim []*big.Int
	for _, e := range h.is.E {
		claim = append(claim, mtx.Int(e))
	}
	for _, p := range []mtx.RefProof{ep, np, rp} {
		if len(p.Siblings) > isDepth {
			isDepth = len(p.Siblings)
		}
	}
	return map[string][]*big.Int{
		"claim":                      claim,
		"hoKOpSk":                    {(*big.Int)(r.ho.Sk.Scalar())},
		"hoClaimKOpMtp":              padded(kop.Siblings, idLevels+1),
		"hoClaimKOpClaimsTreeRoot":   one(gen.Clr),
		"isProofExistMtp":            padded(ep.Siblings, isLevels+1),
		"isProofExistClaimsTreeRoot": one(ex.Clr),
		"isProofValidNotRevMtp":      padded(np.Siblings, isLevels+1),
		"isProofValidNotRevMtpNoAux": {noAux},
		"isProofValidNotRevMtpAuxHi": one(np.AuxHi),
		"isProofValidNotRevMtpAuxHv": one(np.AuxHv),
		"isProofValidClaimsTreeRoot": one(st.Clr),
		"isProofValidRevTreeRoot":    one(st.Rer),
		"isProofValidRootsTreeRoot":  one(st.Ror),
		"isProofRootMtp":             padded(rp.Siblings, isLevels+1),
		"isIdenState":                one(st.S),
	}, len(kop.Siblings), isDepth
}

// TestS06_ProofInputs: what is handed to the circuit of a credential shows the
// claim, the identity of the holder and the state, in as many levels as the
// circuit has, or is refused.
func TestS06_ProofInputs(t *testing.T) {
	rec := vh.NewRec("S06_ProofInputs", "credentials out of histories of an issuer, completed later, for circuits with 0 to 12 levels, compared element by element with the inputs by definition; credentials with another claim; non-trivial: the claims tree has at least 2 levels and changed since the credential")
	vh.Check(t, 400, 10000, func(t *rapid.T) {
		r := beginRing(t)
		if r == nil {
			rec.Label("genesis refused")
			return
		}
		defer r.box.Close()
		for n := rapid.IntRange(1, 4).Draw(t, "rounds"); n > 0; n-- {
			r.round()
		}
		deep := false
		for _, h := range r.have {
			idLevels, isLevels := rapid.SampledFrom([]int{6, 0, 1, 2, 6, 3, 6}).Draw(t, "id levels"), rapid.SampledFrom([]int{12, 2, 3, 4, 5, 12, 9, 1, 12, 0}).Draw(t, "issuer levels")
			own, err := r.ho.Ho.GenIdOwnershipGenesisInputs(idLevels)
			at, st := r.latest()
			in, idDepth, isDepth := r.inputs(h, idLevels, isLevels)
			if err != nil && idDepth <= idLevels || err == nil && idDepth > idLevels+1 {
				r.fatal(fmt.Errorf("inputs of the identity in %d levels, %d needed: %v", idLevels, idDepth, err))
			}
			if err != nil {
				rec.Label("too few levels for the identity")
				continue
			}
			var idh world.H
			copy(idh[:], r.ho.ID[:])
			if !sameInts([]*big.Int{own.Id, own.PrivateKey, own.ClaimsTreeRoot}, []*big.Int{mtx.Int(idh), in["hoKOpSk"][0], in["hoClaimKOpClaimsTreeRoot"][0]}) || !sameInts(own.MtpSiblings, in["hoClaimKOpMtp"]) {
				r.fatal(fmt.Errorf("inputs of the identity are %+v, should be %v", own, in))
			}
			data, err := r.ho.Ho.HolderGetCredentialValidityData(h.cred)
			rev := world.Rev(h.is.Nonce)
			_, revoked := st.Revs[rev.Hi()]
			if !r.x.Off.Available(r.x.ID, at.S) || revoked {
				if err == nil {
					r.fatal(fmt.Errorf("data of a claim that is revoked (%v) or of an unknown state", revoked))
				}
				continue
			}
			if err != nil {
				r.fatal(fmt.Errorf("no data of validity: %v", err))
			}
			got, err := r.ho.Ho.HolderGetCredentialProofInputs(own, h.cred, data, isLevels)
			if err != nil && isDepth <= isLevels || err == nil && isDepth > isLevels+1 {
				r.fatal(fmt.Errorf("inputs of the credential in %d levels, %d needed: %v", isLevels, isDepth, err))
			}
			if err != nil {
				rec.Label("too few levels for the issuer")
				continue
			}
			one := func(x *big.Int) []*big.Int { return []*big.Int{x} }
			g := map[string][]*big.Int{
				"claim": got.Claim, "hoKOpSk": one(got.PrivateKey), "hoClaimKOpMtp": got.ClaimKOpMtp, "hoClaimKOpClaimsTreeRoot": one(got.ClaimKOpClaimsTreeRoot),
				"isProofExistMtp": got.CredExistMtp, "isProofExistClaimsTreeRoot": one(got.CredExistClaimsTreeRoot),
				"isProofValidNotRevMtp": got.CredValidNotRevMtp, "isProofValidNotRevMtpNoAux": one(got.CredValidNotRevMtpNoAux), "isProofValidNotRevMtpAuxHi": one(got.CredValidNotRevMtpAuxHi),
				"isProofValidNotRevMtpAuxHv": one(got.CredValidNotRevMtpAuxHv), "isProofValidClaimsTreeRoot": one(got.CredValidClaimsTreeRoot), "isProofValidRevTreeRoot": one(got.CredValidRevTreeRoot),
				"isProofValidRootsTreeRoot": one(got.CredValidRootsTreeRoot), "isProofRootMtp": got.CredValidRootMtp, "isIdenState": one(got.IdenState),
			}
			for k, want := range in {
				if !sameInts(g[k], want) {
					r.fatal(fmt.Errorf("input %s of claim %v is %v, should be %v", k, h.is.Spec, g[k], want))
				}
			}
			r.did("inputs")
			deep = deep || isDepth >= 2 && r.x.List[h.at].Clr != st.Clr
			if rapid.IntRange(0, 2).Draw(t, "cheat") == 0 {
				// a claim that was not issued has no inputs
				bad := *h.cred
				e := h.is.E
				j := rapid.IntRange(0, 7).Draw(t, "elem")
				e[j][rapid.IntRange(0, 30).Draw(t, "byte")] ^= 1
				bad.Claim = e.E()
				if _, err := r.ho.Ho.HolderGetCredentialProofInputs(own, &bad, data, 140); err == nil {
					r.fatal(fmt.Errorf("inputs for a claim that was not issued"))
				}
				r.did("refused")
			}
		}
		for k, v := range r.seen {
			for i := 0; i < v; i++ {
				rec.Label("%s", k)
			}
		}
		rec.Case(deep, "%v", r.trace)
	})
}

const (
	credIDLevels = 6
	credLevels   = 9
)

// credCircuit makes all inputs of a credential proof public, the state first.
var credCircuit = toyzk.Circuit{Public: []toyzk.Signal{
	{Name: "isIdenState", N: 1}, {Name: "claim", N: 8}, {Name: "hoKOpSk", N: 1}, {Name: "hoClaimKOpMtp", N: credIDLevels + 1}, {Name: "hoClaimKOpClaimsTreeRoot", N: 1},
	{Name: "isProofExistMtp", N: credLevels + 1}, {Name: "isProofExistClaimsTreeRoot", N: 1}, {Name: "isProofValidNotRevMtp", N: credLevels + 1},
	{Name: "isProofValidNotRevMtpNoAux", N: 1}, {Name: "isProofValidNotRevMtpAuxHi", N: 1}, {Name: "isProofValidNotRevMtpAuxHv", N: 1},
	{Name: "isProofValidClaimsTreeRoot", N: 1}, {Name: "isProofValidRevTreeRoot", N: 1}, {Name: "isProofValidRootsTreeRoot", N: 1},
	{Name: "isProofRootMtp", N: credLevels + 1}}, Salt: 2}

var otherCircuit = toyzk.Circuit{Public: credCircuit.Public, Salt: 3}

var credFiles, otherFiles *zkutils.ZkFiles

// TestS07_ZkCredential: a proof of a credential is accepted exactly when it is
// of a state that the issuer had on the chain at that block, fresh enough or
// the last one, and it is made of the right inputs.
func TestS07_ZkCredential(t *testing.T) {
	rec := vh.NewRec("S07_ZkCredential", "proofs made by the holder out of histories of an issuer, for a toy circuit whose public signals are all inputs, verified as they are, at chosen times, and with another signal, issuer, block or key; non-trivial: the issuer has at least 2 states on the chain")
	vh.Check(t, 240, 6000, func(t *rapid.T) {
		if credFiles == nil {
			credFiles, otherFiles = credCircuit.Files(true), otherCircuit.Files(true)
		}
		r := beginRing(t)
		if r == nil {
			rec.Label("genesis refused")
			return
		}
		defer r.box.Close()
		type shown struct {
			out *holder.ZkProofCredOut
			at  world.State
			h   held
		}
		var made []shown
		// one verifier sees all of it: what it saw before decides nothing
		var now time.Time
		v := verifier.NewWithTimeNow(r.x.Chain, func() time.Time { return now })
		show := func(s shown) {
			fresh := rapid.SampledFrom([]time.Duration{0, 50 * time.Second, 500 * time.Second, time.Hour}).Draw(t, "freshness")
			now = time.Unix(r.x.Chain.Ts+rapid.SampledFrom([]int64{0, 1, 60, 600, 5000}).Draw(t, "later"), 0)
			l, _ := r.x.Chain.Latest(r.x.ID)
			want := l == s.at || now.Add(-fresh).Before(time.Unix(s.at.Ts, 0))
			zp, sig, id, n, files := s.out.ZkProofOut.Proof, append([]*big.Int{}, s.out.ZkProofOut.PubSignals...), r.x.ID, s.at.N, credFiles
			bad := "nothing"
			if rapid.Bool().Draw(t, "cheat") {
				switch rapid.IntRange(0, 10).Draw(t, "how") {
				case 10:
					bad = "incomplete proof"
					switch rapid.IntRange(0, 5).Draw(t, "missing") {
					case 0:
						zp.A = nil
					case 1:
						zp.B = nil
					case 2:
						zp.C = nil
					case 3:
						zp.A = &bn256.G1{}
					case 4:
						zp.B = &bn256.G2{}
					case 5:
						zp.C = &bn256.G1{}
					}
				case 7:
					bad = "number of signals"
					sig = sig[:rapid.SampledFrom([]int{0, 1, len(sig) - 1}).Draw(t, "signals left")]
				case 8:
					bad = "number of signals"
					sig = append(sig, rapid.SampledFrom([]*big.Int{big.NewInt(0), sig[0], nil}).Draw(t, "another signal"))
				case 9:
					bad = "signal out of the field"
					j := rapid.IntRange(0, len(sig)-1).Draw(t, "which")
					sig[j] = rapid.SampledFrom([]*big.Int{new(big.Int).Add(sig[j], mtx.Q), new(big.Int).Sub(sig[j], mtx.Q), nil}).Draw(t, "other words")
				case 0:
					bad = "signal"
					j := rapid.IntRange(0, len(sig)-1).Draw(t, "which")
					sig[j] = new(big.Int).Add(sig[j], big.NewInt(1))
				case 1:
					bad = "issuer"
					id[5] ^= 1
				case 2:
					bad = "block"
					n++
				case 3:
					bad = "block of another state"
					hs := r.x.Chain.Hist[r.x.ID]
					o := rapid.SampledFrom(hs).Draw(t, "state")
					if o.N == n {
						bad = "nothing"
					}
					n = o.N
				case 4:
					bad = "key"
					files = otherFiles
				case 5:
					bad = "proof"
					zp.A, zp.C = zp.C, zp.A
				case 6:
					// the same signal in other words
					bad = "signal out of the field"
					sig[0] = new(big.Int).Add(sig[0], mtx.Q)
				}
			}
			hit := false
			if rapid.IntRange(0, 4).Draw(t, "chain fails") == 0 {
				call := rapid.SampledFrom([]string{"GetState", "GetStateByBlock"}).Draw(t, "failing call")
				r.x.Chain.Fault = func(c string) (bool, bool) {
					hit = hit || c == call
					return c == call, false
				}
				defer func() { r.x.Chain.Fault = nil }()
			}
			var err error
			if m := vh.Catch(func() { err = v.VerifyZkProofCredential(&zp, sig, &id, n, files, fresh) }); m != "" {
				r.fatal(fmt.Errorf("verifying a proof with bad %s crashed: %s", bad, m))
			}
			if bad != "nothing" {
				want = false
			}
			if (err == nil) != want && !(hit && err != nil) {
				r.fatal(fmt.Errorf("proof with bad %s at %v, state of %v, last of %v, freshness %v: %v", bad, now.Unix(), s.at.Ts, l.Ts, fresh, err))
			}
			r.did(fmt.Sprintf("proof with bad %s accepted %v", bad, want))
		}
		for n := rapid.IntRange(1, 4).Draw(t, "rounds"); n > 0; n-- {
			r.round()
			for _, s := range made {
				for i := rapid.IntRange(0, 2).Draw(t, "shows"); i > 0; i-- {
					show(s)
				}
			}
			if len(r.have) == 0 {
				continue
			}
			h := rapid.SampledFrom(r.have).Draw(t, "held")
			at, st := r.latest()
			_, revoked := st.Revs[world.Rev(h.is.Nonce).Hi()]
			r.log("proof of %v from state %d", h.is.Spec, h.at)
			out, err := r.ho.Ho.HolderGenZkProofCredential(h.cred, func(in map[string]interface{}) error {
				if _, ok := in["claim"]; ok {
					return fmt.Errorf("the claim is among the inputs")
				}
				var c []*big.Int
				for _, e := range h.is.E {
					c = append(c, mtx.Int(e))
				}
				in["claim"] = c
				return nil
			}, credIDLevels, credLevels, credFiles)
			if revoked || !r.x.Off.Available(r.x.ID, at.S) {
				if err == nil {
					r.fatal(fmt.Errorf("proof of a claim that is revoked (%v) or of an unknown state", revoked))
				}
				r.did("no proof")
				continue
			}
			in, idDepth, isDepth := r.inputs(h, credIDLevels, credLevels)
			if idDepth > credIDLevels || isDepth > credLevels {
				continue
			}
			if err != nil {
				r.fatal(fmt.Errorf("no proof: %v", err))
			}
			var want []*big.Int
			for _, s := range credCircuit.Public {
				want = append(want, in[s.Name]...)
			}
			if !sameInts(out.ZkProofOut.PubSignals, want) {
				r.fatal(fmt.Errorf("the signals of the proof are %v, should be %v", out.ZkProofOut.PubSignals, want))
			}
			if *out.IssuerID != r.x.ID || out.IdenStateBlockN != at.N {
				r.fatal(fmt.Errorf("the proof is of %v at block %d, should be %v at %d", out.IssuerID, out.IdenStateBlockN, r.x.ID, at.N))
			}
			made = append(made, shown{out, at, h})
			if rapid.Bool().Draw(t, "show at once") {
				show(made[len(made)-1])
			}
		}
		for _, s := range made {
			for i := 0; i < 4; i++ {
				show(s)
			}
		}
		for k, v := range r.seen {
			for i := 0; i < v; i++ {
				rec.Label("%s", k)
			}
		}
		rec.Case(len(made) > 0 && len(r.x.Chain.Hist[r.x.ID]) > 1, "%v", r.trace)
	})
}

var _ = core.ID{}
var _ = merkletree.HashZero
