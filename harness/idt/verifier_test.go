package idt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"testing"
	"time"

	"verifharness/mtx"
	"verifharness/vh"
	"verifharness/world"

	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"
)

// rstate is one state of a reference identity: what it has on the chain and
// the trees behind it.
type rstate struct {
	at                  world.State
	clr, rer, ror       world.H
	claims, revs, roots mtx.Set
}

type rident struct {
	id     core.ID
	states []rstate
	specs  []world.Spec
	all    []mtx.Entry
}

// drawIdents makes identities straight from the definitions, with their states
// on the chain.
func drawIdents(t *rapid.T, chain *world.Chain, n int, exps []int64) []*rident {
	var ids []*rident
	type building struct {
		*rident
		claims, revs, roots mtx.Set
		nonce               uint32
	}
	var bs []*building
	for i := 0; i < n; i++ {
		var gen [27]byte
		gen[0], gen[26] = byte(i+1), 9
		bs = append(bs, &building{rident: &rident{id: core.NewID(core.TypeBJP0, gen)}, claims: mtx.Set{}, revs: mtx.Set{}, roots: mtx.Set{}})
	}
	for k := rapid.IntRange(1, 3).Draw(t, "states"); k > 0; k-- {
		for _, b := range bs {
			for j := rapid.IntRange(1, 3).Draw(t, "new claims"); j > 0; j-- {
				s := world.DrawSpec(t, exps)
				e := s.Entry(b.nonce)
				if _, dup := b.claims[e.Hi()]; dup {
					continue
				}
				b.nonce++
				b.claims[e.Hi()] = e
				b.specs, b.all = append(b.specs, s), append(b.all, e)
			}
			for j := rapid.IntRange(0, 2).Draw(t, "revoked"); j > 0 && b.nonce > 0; j-- {
				r := world.Rev(rapid.Uint32Range(0, b.nonce-1).Draw(t, "nonce"))
				b.revs[r.Hi()] = r
			}
			rl := world.RootLeaf(b.claims.Root())
			b.roots[rl.Hi()] = rl
			st := rstate{clr: b.claims.Root(), rer: b.revs.Root(), ror: b.roots.Root(), claims: b.claims.Clone(), revs: b.revs.Clone(), roots: b.roots.Clone()}
			s := mtx.MustPoseidon(st.clr, st.rer, st.ror)
			if l, ok := chain.Latest(b.id); ok && l.S == s {
				continue
			}
			chain.Mine(rapid.Int64Range(0, 300).Draw(t, "seconds"), world.All)
			chain.Force(b.id, s)
			st.at, _ = chain.Latest(b.id)
			b.states = append(b.states, st)
		}
	}
	for _, b := range bs {
		ids = append(ids, b.rident)
	}
	return ids
}

// xe and xv are credentials made of reference parts; nil is a missing part.
type xe struct {
	id       *core.ID
	at       world.State
	noState  bool
	proof    *mtx.RefProof
	claim    *mtx.Entry
	rer, ror *world.H
	url      string
}

type xv struct {
	e        xe
	at       world.State
	noState  bool
	notn     *mtx.RefProof
	clr, ror *world.H
}

func hash(h *world.H) *merkletree.Hash {
	if h == nil {
		return nil
	}
	return mtx.Hash(*h)
}

func prf(t *rapid.T, p *mtx.RefProof) *merkletree.Proof {
	if p == nil {
		return nil
	}
	r, err := merkletree.NewProofFromBytes(p.Bytes())
	if err != nil {
		t.Fatalf("proof %+v: %v", p, err)
	}
	return r
}

func data(s world.State, none bool) proof.IdenStateData {
	d := *s.Data()
	if none {
		d.IdenState = nil
	}
	return d
}

func (c xe) build(t *rapid.T) proof.CredentialExistence {
	r := proof.CredentialExistence{IdenStateData: data(c.at, c.noState), MtpClaim: prf(t, c.proof), RevocationsTreeRoot: hash(c.rer), RootsTreeRoot: hash(c.ror), IdenPubUrl: c.url}
	if c.id != nil {
		id := *c.id
		r.Id = &id
	}
	if c.claim != nil {
		r.Claim = c.claim.E()
	}
	return r
}

func (c xv) build(t *rapid.T) proof.CredentialValidity {
	return proof.CredentialValidity{CredentialExistence: c.e.build(t), IdenStateData: data(c.at, c.noState), MtpNotNonce: prf(t, c.notn), ClaimsTreeRoot: hash(c.clr), RootsTreeRoot: hash(c.ror)}
}

func stateIs(clr, rer, ror, s world.H) bool {
	g, ok := mtx.Poseidon(clr, rer, ror)
	return ok && g == s
}

// ok tells whether the credential shows what it says, by definition.
func (c xe) ok(chain *world.Chain) (bool, string) {
	if c.id == nil || c.noState || c.proof == nil || c.claim == nil || c.rer == nil || c.ror == nil {
		return false, "incomplete"
	}
	if !c.proof.Existence {
		return false, "proof of absence"
	}
	if !c.claim.InField() {
		return false, "claim out of the field"
	}
	clr, ok := c.proof.Fold(c.claim.Hi(), c.claim.Hv())
	if !ok || !stateIs(clr, *c.rer, *c.ror, c.at.S) {
		return false, "not under the state"
	}
	if at, ok := chain.At(*c.id, c.at.N); !ok || at != c.at {
		return false, "not the state on the chain"
	}
	return true, ""
}

func (c xv) ok(chain *world.Chain, now time.Time, fresh time.Duration) (bool, string) {
	if c.noState || c.notn == nil || c.clr == nil || c.ror == nil {
		return false, "incomplete"
	}
	if ok, why := c.e.ok(chain); !ok {
		return false, why
	}
	if c.e.claim[0][8]&0b1000 != 0 {
		exp := int64(binary.LittleEndian.Uint64(c.e.claim[4][4:12]))
		if exp < now.Unix() || exp == now.Unix() && now.Nanosecond() > 0 {
			return false, "expired"
		}
	}
	if c.notn.Existence {
		return false, "revoked"
	}
	rev := world.Rev(world.Nonce(*c.e.claim))
	rer, ok := c.notn.Fold(rev.Hi(), rev.Hv())
	if !ok || !stateIs(*c.clr, rer, *c.ror, c.at.S) {
		return false, "not shown unrevoked under the state"
	}
	if at, ok := chain.At(*c.e.id, c.at.N); !ok || at != c.at {
		return false, "not the state on the chain"
	}
	if l, _ := chain.Latest(*c.e.id); l.S != c.at.S {
		old := now.Add(-fresh)
		if !old.Before(time.Unix(c.at.Ts, 0)) {
			return false, "outdated"
		}
	}
	return true, ""
}

func flip(t *rapid.T, h *world.H) *world.H {
	n := *h
	i := rapid.IntRange(0, 31).Draw(t, "byte")
	n[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
	return &n
}

// tamper changes one hash.
func tamperH(t *rapid.T, h *world.H, others []world.H) *world.H {
	switch rapid.IntRange(0, 5).Draw(t, "how") {
	case 0:
		return nil
	case 1:
		b := mtx.Elem(true).Draw(t, "bad")
		return &b
	case 2:
		return &world.H{}
	case 3:
		if h != nil {
			return flip(t, h)
		}
		return h
	}
	o := rapid.SampledFrom(others).Draw(t, "other root")
	return &o
}

func tamperProof(t *rapid.T, p *mtx.RefProof, hi, hv world.H) *mtx.RefProof {
	if p == nil {
		return p
	}
	q := *p
	q.Siblings = append([]world.H{}, p.Siblings...)
	switch rapid.IntRange(0, 7).Draw(t, "how") {
	case 0:
		return nil
	case 1:
		q.Existence = !q.Existence
	case 2:
		if n := len(q.Siblings); n > 0 {
			i := rapid.IntRange(0, n-1).Draw(t, "sibling")
			q.Siblings[i] = *flip(t, &q.Siblings[i])
		}
	case 3:
		if n := len(q.Siblings); n > 0 {
			q.Siblings = q.Siblings[:n-1]
		}
	case 4:
		q.Siblings = append(q.Siblings, world.H{})
	case 5:
		// shows the absence of what is there with itself
		q.Existence, q.Aux, q.AuxHi, q.AuxHv = false, true, hi, hv
	case 6:
		q.Aux = !q.Aux
		if q.Aux {
			q.AuxHi, q.AuxHv = mtx.SeedEntry(3).Hi(), mtx.SeedEntry(3).Hv()
		}
	case 7:
		if q.Aux {
			q.AuxHv = *flip(t, &q.AuxHv)
		}
	}
	return &q
}

func tamperState(t *rapid.T, s *world.State, none *bool, ids []*rident) {
	switch rapid.IntRange(0, 5).Draw(t, "how") {
	case 0:
		s.N += rapid.Uint64Range(1, 3).Draw(t, "blocks")
	case 1:
		s.N--
	case 2:
		s.Ts += rapid.SampledFrom([]int64{-1, 1, 100000, -100000}).Draw(t, "seconds")
	case 3:
		s.S = *flip(t, &s.S)
	case 4:
		*none = true
	case 5:
		d := rapid.SampledFrom(ids).Draw(t, "identity")
		*s = rapid.SampledFrom(d.states).Draw(t, "other state").at
	}
}

// TestS04_Verifier: a verifier accepts exactly the credentials that show what
// they say, and never crashes.
func TestS04_Verifier(t *testing.T) {
	rec := vh.NewRec("S04_Verifier", "credentials of existence and of validity, put together of parts of the states of two identities (right ones, or from other claims, states and identities), with up to 2 parts tampered with or missing, at chosen times; as objects and through JSON; compared with the definition; non-trivial: complete credentials")
	exps := []int64{0, start - 1, start, start + 300, start + 301, start + 1000, math.MaxInt64, math.MaxInt64 - 1<<33, 1 << 40, -1, math.MinInt64}
	vh.Check(t, 16000, 400000, func(t *rapid.T) {
		chain := world.NewChain(rapid.Uint64Range(1, 1000).Draw(t, "block"), start)
		ids := drawIdents(t, chain, 2, exps)
		d := ids[0]
		if len(d.all) == 0 {
			return
		}
		last := len(d.states) - 1
		ei := rapid.IntRange(0, last).Draw(t, "state of existence")
		vi := rapid.IntRange(0, last).Draw(t, "state of validity")
		es, vs := d.states[ei], d.states[vi]
		claim := rapid.SampledFrom(d.all).Draw(t, "claim")
		if _, ok := es.claims[claim.Hi()]; !ok {
			es = d.states[last]
		}
		rev := world.Rev(world.Nonce(claim))
		p, np := es.claims.Proof(claim.Hi()), vs.revs.Proof(rev.Hi())
		_, revoked := vs.revs[rev.Hi()]
		c := xv{e: xe{id: &d.id, at: es.at, proof: &p, claim: &claim, rer: &es.rer, ror: &es.ror, url: "https://x"}, at: vs.at, notn: &np, clr: &vs.clr, ror: &vs.ror}
		// what a verifier got before, into the same memory
		earlier, err := json.Marshal(c.build(t))
		vh.Must(err)
		var roots []world.H
		for _, i := range ids {
			for _, s := range i.states {
				roots = append(roots, s.clr, s.rer, s.ror, s.at.S)
			}
		}
		var did []string
		n := rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2}).Draw(t, "tampered parts")
		for i := 0; i < n; i++ {
			k := rapid.IntRange(0, 12).Draw(t, "part")
			switch k {
			case 0:
				switch rapid.IntRange(0, 2).Draw(t, "how") {
				case 0:
					c.e.id = nil
				case 1:
					c.e.id = &ids[1].id
				case 2:
					id := d.id
					id[rapid.IntRange(0, 30).Draw(t, "byte")] ^= 1
					c.e.id = &id
				}
			case 1:
				tamperState(t, &c.e.at, &c.e.noState, ids)
			case 2:
				if c.e.claim != nil {
					c.e.proof = tamperProof(t, c.e.proof, c.e.claim.Hi(), c.e.claim.Hv())
				}
			case 3:
				switch rapid.IntRange(0, 3).Draw(t, "how") {
				case 0:
					c.e.claim = nil
				case 1:
					o := rapid.SampledFrom(ids).Draw(t, "identity")
					e := rapid.SampledFrom(o.all).Draw(t, "other claim")
					c.e.claim = &e
				default:
					if c.e.claim != nil {
						e := *c.e.claim
						j := rapid.IntRange(0, 7).Draw(t, "elem")
						e[j] = *flip(t, &e[j])
						if e.InField() || rapid.Bool().Draw(t, "keep") {
							c.e.claim = &e
						}
					}
				}
			case 4:
				c.e.rer = tamperH(t, c.e.rer, roots)
			case 5:
				c.e.ror = tamperH(t, c.e.ror, roots)
			case 6:
				c.e.url = ""
			case 7:
				tamperState(t, &c.at, &c.noState, ids)
			case 8, 9:
				c.notn = tamperProof(t, c.notn, rev.Hi(), rev.Hv())
			case 10:
				c.clr = tamperH(t, c.clr, roots)
			case 11:
				c.ror = tamperH(t, c.ror, roots)
			case 12:
				// the revocations of another time, shown consistently
				o := rapid.SampledFrom(ids).Draw(t, "identity")
				s := rapid.SampledFrom(o.states).Draw(t, "other state")
				q := s.revs.Proof(rev.Hi())
				c.notn = &q
				if rapid.Bool().Draw(t, "with roots") {
					c.clr, c.ror = &s.clr, &s.ror
				}
			}
			did = append(did, fmt.Sprint(k))
			if c.e.claim != nil && !c.e.claim.InField() {
				break
			}
		}
		// the time: around the end of the claim, of the freshness, or any
		fresh := rapid.SampledFrom([]time.Duration{0, 1, time.Second, 100 * time.Second, 1000 * time.Second, 300 * 24 * time.Hour, math.MaxInt64}).Draw(t, "freshness")
		base := int64(start)
		switch rapid.IntRange(0, 2).Draw(t, "time") {
		case 0:
			if e := int64(binary.LittleEndian.Uint64(claim[4][4:12])); e > start-10 && e < 1<<41 {
				base = e
			}
		case 1:
			if fresh < 1<<50 {
				base = c.at.Ts + int64(fresh/time.Second)
			}
		}
		now := time.Unix(base+rapid.Int64Range(-2, 2).Draw(t, "off"), rapid.SampledFrom([]int64{0, 1, 999999999}).Draw(t, "ns"))
		v := verifier.NewWithTimeNow(chain, func() time.Time { return now })

		wantE, whyE := c.e.ok(chain)
		wantV, whyV := c.ok(chain, now, fresh)
		if wantE {
			// accepted credentials are of claims that were issued
			found := false
			for _, i := range ids {
				for _, s := range i.states {
					found = found || i.id == *c.e.id && s.at == c.e.at && s.claims[c.e.claim.Hi()] == *c.e.claim
				}
			}
			if !found {
				vh.Harness("the definition accepts a claim that was not issued: %+v", c)
			}
		}
		if wantV {
			for _, i := range ids {
				for _, s := range i.states {
					if i.id == *c.e.id && s.at == c.at {
						r := world.Rev(world.Nonce(*c.e.claim))
						if _, ok := s.revs[r.Hi()]; ok {
							vh.Harness("the definition accepts a revoked claim: %+v", c)
						}
					}
				}
			}
		}
		show := func() string {
			return fmt.Sprintf("%+v\nclaim %v\nnow %v freshness %v chain %v", c, c.e.claim, now.UTC(), fresh, chain.Hist)
		}
		ce, cv := c.e.build(t), c.build(t)
		je, err := json.Marshal(ce)
		vh.Must(err)
		jv, err := json.Marshal(cv)
		vh.Must(err)
		if rapid.Bool().Draw(t, "seen before") {
			// what the verifier saw before decides nothing
			var before proof.CredentialValidity
			if p := vh.Catch(func() {
				if json.Unmarshal(earlier, &before) == nil {
					v.VerifyCredentialValidity(&before, fresh)
				}
			}); p != "" {
				t.Fatalf("verifying crashed: %s\n%s", p, show())
			}
		}
		if p := vh.Catch(func() { err = v.VerifyCredentialExistence(&ce) }); p != "" {
			t.Fatalf("verifying crashed: %s\n%s", p, show())
		}
		if (err == nil) != wantE {
			t.Fatalf("credential of existence: %v, should be accepted: %v (%s)\n%s", err, wantE, whyE, show())
		}
		if p := vh.Catch(func() { err = v.VerifyCredentialValidity(&cv, fresh) }); p != "" {
			t.Fatalf("verifying crashed: %s\n%s", p, show())
		}
		if (err == nil) != wantV {
			t.Fatalf("credential of validity: %v, should be accepted: %v (%s)\n%s", err, wantV, whyV, show())
		}
		// the same as they arrive from someone else
		var ue proof.CredentialExistence
		var uv proof.CredentialValidity
		if p := vh.Catch(func() {
			if err = json.Unmarshal(je, &ue); err == nil {
				err = v.VerifyCredentialExistence(&ue)
			}
		}); p != "" {
			t.Fatalf("verifying crashed: %s\n%s", p, show())
		}
		if (err == nil) != wantE {
			t.Fatalf("credential of existence through JSON: %v, should be accepted: %v (%s)\n%s", err, wantE, whyE, show())
		}
		if p := vh.Catch(func() {
			if err = json.Unmarshal(jv, &uv); err == nil {
				err = v.VerifyCredentialValidity(&uv, fresh)
			}
		}); p != "" {
			t.Fatalf("verifying crashed: %s\n%s", p, show())
		}
		if (err == nil) != wantV {
			t.Fatalf("credential of validity through JSON: %v, should be accepted: %v (%s)\n%s", err, wantV, whyV, show())
		}
		// the same into the memory of one seen before
		var used proof.CredentialValidity
		if p := vh.Catch(func() {
			if err = json.Unmarshal(earlier, &used); err == nil {
				_ = v.VerifyCredentialValidity(&used, fresh)
				if err = json.Unmarshal(jv, &used); err == nil {
					err = v.VerifyCredentialValidity(&used, fresh)
				}
			}
		}); p != "" {
			t.Fatalf("verifying crashed: %s\n%s", p, show())
		}
		if (err == nil) != wantV {
			t.Fatalf("credential of validity read into the memory of an earlier one: %v, should be accepted: %v (%s)\n%s", err, wantV, whyV, show())
		}
		if p := vh.Catch(func() { err = v.VerifyCredentialExistence(&used.CredentialExistence) }); p == "" && json.Unmarshal(jv, new(proof.CredentialValidity)) == nil && (err == nil) != wantE {
			t.Fatalf("credential of existence read into the memory of an earlier one: %v, should be accepted: %v (%s)\n%s", err, wantE, whyE, show())
		}
		// the same credential when the chain can't be read
		chain.Fault = func(string) (bool, bool) { return true, false }
		if err := v.VerifyCredentialExistence(&ce); err == nil {
			t.Fatalf("accepted without a chain")
		}
		if err := v.VerifyCredentialValidity(&cv, fresh); err == nil {
			t.Fatalf("accepted without a chain")
		}
		if whyV == "" {
			whyV = "accepted"
		}
		rec.Label("validity: %s", whyV)
		rec.LabelIf(wantE, "existence accepted")
		rec.LabelIf(revoked, "claim revoked at the state of validity")
		rec.LabelIf(wantV && vi < last, "accepted under an older state")
		rec.Case(whyV != "incomplete", "%v parts %v existence %d validity %d of %d now %v fresh %v: %s", claim, did, ei, vi, last, now.Unix(), fresh, whyV)
	})
}
