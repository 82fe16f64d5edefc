package idt

import (
	"fmt"
	"sync"
	"testing"

	"verifharness/faultdb"
	"verifharness/mtx"
	"verifharness/vh"
	"verifharness/world"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"
)

// TestS08_Concurrent: an issuer is shared by goroutines.
func TestS08_Concurrent(t *testing.T) {
	rec := vh.NewRec("S08_Concurrent", "goroutines that issue, revoke, publish, synchronize, ask for credentials and for the state of one issuer while blocks are mined, under the race detector; all answers have to be consistent with themselves and the end result with the union of what was acknowledged; non-trivial: claims were issued by at least two goroutines and a state was confirmed")
	vh.Check(t, 160, 3000, func(t *rapid.T) {
		chain := world.NewChain(7, start)
		off := world.NewOff(rapid.SampledFrom([]string{"record", "local"}).Draw(t, "offchain"), 9)
		cfg := issuer.ConfigDefault
		cfg.ConfirmBlocks = rapid.SampledFrom([]uint64{0, 1}).Draw(t, "confirm")
		jitter := rapid.SampledFrom([]int{0, 1, 2}).Draw(t, "jitter")
		st := faultdb.NewJitter(db.NewMemoryStorage(), jitter, rapid.Uint64().Draw(t, "jitter seed"))
		chain.Pause = faultdb.Pauser(jitter, rapid.Uint64().Draw(t, "chain's seed"))
		x, _, err := world.Create(chain, off, st, cfg, rapid.IntRange(0, 20).Draw(t, "key"), nil)
		if err != nil {
			t.Fatal(err)
		}
		if err := x.Load(); err != nil {
			t.Fatal(err)
		}
		is := x.Is
		type got struct {
			w    int
			spec world.Spec
			c    claims.Claimer
			e    mtx.Entry
		}
		var issued []got
		roots := mtx.Set{}
		rl := world.RootLeaf(mtx.Set{x.KOpEntry.Hi(): x.KOpEntry}.Root())
		roots[rl.Hi()] = rl
		if rapid.IntRange(0, 3).Draw(t, "before") > 0 {
			// one state is on the chain already
			for i := byte(0); i < 3; i++ {
				s := world.Spec{Kind: "basic", I: 50 + i}
				c := s.Build()
				if err := is.IssueClaim(c); err != nil {
					t.Fatal(err)
				}
				issued = append(issued, got{-1, s, c, mtx.FromE(&c.Entry().Data)})
			}
			if err := is.PublishState(); err != nil {
				t.Fatal(err)
			}
			chain.Mine(5, world.All)
			chain.Mine(5, world.All)
			if err := is.SyncIdenStatePublic(); err != nil {
				t.Fatal(err)
			}
		}
		type job struct {
			op   string
			spec world.Spec
			c    claims.Claimer
			n    int
		}
		workers := rapid.IntRange(2, 4).Draw(t, "workers")
		jobs := make([][]job, workers)
		published, most := 0, 2
		kinds := []string{"issue", "issue", "revoke", "sync", "credential", "credential", "state", "onchain", "publish"}
		if rapid.IntRange(0, 2).Draw(t, "publishers") == 0 {
			// most of them publish, at the same time
			kinds, most = []string{"issue", "publish", "publish", "sync"}, 5
		}
		for w := range jobs {
			for i := rapid.IntRange(2, 8).Draw(t, "jobs"); i > 0; i-- {
				j := job{op: rapid.SampledFrom(kinds).Draw(t, "op"), n: rapid.IntRange(0, 5).Draw(t, "n")}
				if j.op == "publish" {
					if published == most {
						j.op = "state"
					}
					published++
				}
				if j.op == "issue" {
					j.spec = world.DrawSpec(t, exps)
					j.c = j.spec.Build()
				}
				jobs[w] = append(jobs[w], j)
			}
		}
		var mu sync.Mutex
		var bad []string
		fail := func(format string, a ...interface{}) {
			mu.Lock()
			bad = append(bad, fmt.Sprintf(format, a...))
			mu.Unlock()
		}
		var revoked []mtx.Entry
		var creds []*proof.CredentialExistence
		known := func(n int) (merkletree.Entrier, bool) {
			mu.Lock()
			defer mu.Unlock()
			if len(issued) == 0 {
				return world.Ent{E: x.KOpEntry}, false
			}
			return world.Ent{E: issued[n%len(issued)].e}, true
		}
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for w := range jobs {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-begin
				for _, j := range jobs[w] {
					switch j.op {
					case "issue":
						if err := is.IssueClaim(j.c); err == nil {
							mu.Lock()
							issued = append(issued, got{w, j.spec, j.c, mtx.FromE(&j.c.Entry().Data)})
							mu.Unlock()
						} else if err != merkletree.ErrEntryIndexAlreadyExists {
							fail("issuing %v: %v", j.spec, err)
						}
					case "revoke":
						c, _ := known(j.n)
						if err := is.RevokeClaim(c); err == nil {
							mu.Lock()
							revoked = append(revoked, mtx.FromE(&c.Entry().Data))
							mu.Unlock()
						} else if err != merkletree.ErrEntryIndexAlreadyExists {
							fail("revoking: %v", err)
						}
					case "publish":
						if err := is.PublishState(); err != nil && err != issuer.ErrIdenStatePendingNotNil {
							fail("publishing: %v", err)
						}
						chain.Mine(5, world.All)
					case "sync":
						if err := is.SyncIdenStatePublic(); err != nil {
							fail("synchronizing: %v", err)
						}
					case "credential":
						c, _ := known(j.n)
						cred, err := is.GenCredentialExistence(c)
						if err == nil {
							mu.Lock()
							creds = append(creds, cred)
							mu.Unlock()
						} else if err != issuer.ErrIdenStateOnChainZero && err != issuer.ErrClaimNotYetInOnChainState {
							fail("credential of an issued claim: %v", err)
						}
					case "state":
						s, r := is.State()
						if mtx.MustPoseidon(world.H(*r.ClaimsTreeRoot), world.H(*r.RevocationsTreeRoot), world.H(*r.RootsTreeRoot)) != world.H(*s) {
							fail("the state %v is not the hash of the roots given with it", s.Hex())
						}
					case "onchain":
						d := is.StateDataOnChain()
						p, tr := is.IdenStatePending()
						if *p == merkletree.HashZero && tr {
							fail("no state is pending, but it was sent")
						}
						if o := is.IdenStateOnChain(); *o != merkletree.HashZero && *d.IdenState == merkletree.HashZero {
							_ = o // it was confirmed in between
						}
						chain.Mine(1, world.All)
					}
				}
			}(w)
		}
		vh.Within("an issuer shared by goroutines", func() {
			close(begin)
			wg.Wait()
		})
		if len(bad) > 0 {
			t.Fatalf("%v", bad)
		}
		if off.Bad != "" {
			t.Fatal(off.Bad)
		}
		// each state was sent once, after the one before had been confirmed, so that all are accepted
		chain.Mine(5, world.All)
		for i, a := range chain.All {
			if !a.OK {
				t.Fatalf("the contract refuses the transaction %v of %v", a, chain.All)
			}
			for _, b := range chain.All[:i] {
				if a.New == b.New {
					t.Fatalf("a state was sent twice: %v", chain.All)
				}
			}
		}
		// what was acknowledged is there, once
		by := map[int]bool{}
		for _, g := range issued {
			if g.w >= 0 {
				by[g.w] = true
			}
			n := g.c.Metadata().RevNonce
			e := g.spec.Entry(n)
			if e != g.e {
				t.Fatalf("the claim %v changed", g.spec)
			}
			if x.Nonces[n] {
				t.Fatalf("nonce %d is of two claims", n)
			}
			x.Nonces[n] = true
			if _, dup := x.Claims[e.Hi()]; dup {
				t.Fatalf("claim %v was issued twice", g.spec)
			}
			x.Claims[e.Hi()] = e
			x.Issued = append(x.Issued, &world.Issued{Spec: g.spec, C: g.c, E: e, Hi: e.Hi(), Nonce: n})
		}
		for _, e := range revoked {
			r := world.Rev(world.Nonce(e))
			if _, dup := x.Revs[r.Hi()]; dup {
				t.Fatalf("a claim was revoked twice")
			}
			x.Revs[r.Hi()] = r
		}
		_, r := is.State()
		if world.H(*r.ClaimsTreeRoot) != x.Claims.Root() || world.H(*r.RevocationsTreeRoot) != x.Revs.Root() {
			t.Fatalf("roots %v %v don't hold what was acknowledged: %x %x", r.ClaimsTreeRoot.Hex(), r.RevocationsTreeRoot.Hex(), x.Claims.Root(), x.Revs.Root())
		}
		// every published state follows from the one before
		for _, p := range off.Pubs {
			rl := world.RootLeaf(p.Clr)
			roots[rl.Hi()] = rl
			if !p.Roots.Equal(roots) {
				t.Fatalf("the published roots tree holds %v, should hold %v", p.Roots, roots)
			}
			for hi := range p.Revs {
				if _, ok := x.Revs[hi]; !ok {
					t.Fatalf("a revocation is published that nobody asked for")
				}
			}
		}
		for _, c := range creds {
			if c.IdenStateData.IdenState == nil {
				t.Fatalf("credential without a state")
			}
			at, ok := chain.At(x.ID, c.IdenStateData.BlockN)
			if !ok || !at.Same(&c.IdenStateData) {
				t.Fatalf("credential under %+v, the chain has %+v", c.IdenStateData, at)
			}
			p := off.Find(x.ID, at.S)
			if p == nil || world.H(*c.RevocationsTreeRoot) != p.Rer || world.H(*c.RootsTreeRoot) != p.Ror {
				t.Fatalf("credential with the roots of another state")
			}
			e := mtx.FromE(&c.Claim.Data)
			clr, err := merkletree.RootFromProof(c.MtpClaim, mtx.Hash(e.Hi()), mtx.Hash(e.Hv()))
			if err != nil || !c.MtpClaim.Existence || world.H(*clr) != p.Clr {
				t.Fatalf("credential with a proof under %v (%v), should be under %x", clr, err, p.Clr)
			}
		}
		if len(chain.Hist[x.ID]) > len(off.Pubs) {
			t.Fatalf("%d states on the chain, %d published", len(chain.Hist[x.ID]), len(off.Pubs))
		}
		// opened again it is the same
		s1, _ := is.State()
		if err := x.Load(); err != nil {
			t.Fatal(err)
		}
		if s2, _ := x.Is.State(); *s1 != *s2 {
			t.Fatalf("state is %v when opened again, was %v", s2.Hex(), s1.Hex())
		}
		rec.Label("jitter %d", jitter)
		rec.LabelIf(most > 2, "publishers")
		rec.LabelIf(len(creds) > 0, "credentials")
		rec.LabelIf(len(revoked) > 0, "revoked")
		rec.LabelIf(len(chain.Hist[x.ID]) > 0, "on the chain")
		rec.LabelIf(len(off.Pubs) > 1, "published twice")
		rec.Case(len(by) > 1 && len(chain.Hist[x.ID]) > 0, "%v", jobs)
	})
}
