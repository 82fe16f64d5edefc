package idt

import (
	"fmt"
	"testing"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/identity/issuer"

	"verifharness/faultdb"
	"verifharness/vh"
	"verifharness/world"

	"pgregory.net/rapid"
)

// TestS01_Long: also an identity with hundreds of states follows its history.
func TestS01_Long(t *testing.T) {
	rec := vh.NewRec("S01_Long", "identities that bring 257 to 300 states on the chain (to 1100 in the thorough tier), one or more claims or revocations each, opened again and synchronized between, compared with the model after every step, with credentials for old and new claims at the end; non-trivial: more than 256 states")
	if vh.Shard > 2 && !vh.Thorough() {
		t.Skip("a few cases are enough")
	}
	vh.Check(t, 8, 24, func(t *rapid.T) {
		chain := world.NewChain(rapid.Uint64Range(1, 1000).Draw(t, "block"), start)
		h := &hist{t: t, seen: map[string]int{}}
		h.box = faultdb.NewBox(rapid.SampledFrom([]string{"mem", "memprefix", "level"}).Draw(t, "storage"), []byte("iden:"))
		defer h.box.Close()
		cfg := issuer.ConfigDefault
		cfg.ConfirmBlocks = rapid.SampledFrom([]uint64{0, 3}).Draw(t, "confirm")
		x, _, err := world.Create(chain, world.NewOff(rapid.SampledFrom(world.OffKinds).Draw(t, "offchain"), 5), h.box.Storage(), cfg, rapid.IntRange(0, 20).Draw(t, "key"), nil)
		if err != nil {
			t.Fatalf("creating an identity: %v", err)
		}
		h.x = x
		h.fatal(x.Load())
		// a claim with an index of its own
		issue := func(i int) {
			s := world.Spec{Kind: "other", I: byte(i), V: byte(i >> 8), Subject: core.NewID(core.TypeBJP0, [27]byte{byte(i), byte(i >> 8), 20: 9})}
			c := s.Build()
			h.log("issue %v", s)
			_, what, err := x.Issue(s, c)
			h.fatal(err)
			h.did(what)
			if what != "issued" {
				t.Fatalf("a new claim: %s", what)
			}
		}
		n := 257 + rapid.SampledFrom([]int{0, 1, 20, 43}).Draw(t, "more")
		if vh.Thorough() {
			n = rapid.SampledFrom([]int{300, 520, 1100}).Draw(t, "states")
		}
		cs := map[string]int{}
		for i := 0; i < n; i++ {
			if i%3 != 2 || !h.cheapRevoke() {
				issue(i)
			}
			if i%50 == 49 {
				h.reopen()
			}
			h.publish()
			h.mine(1+int(h.x.Cfg.ConfirmBlocks), "all")
			h.sync()
			h.fatal(h.x.CheckState())
			if len(h.trace) > 4000 {
				h.trace = h.trace[2000:]
			}
		}
		h.reopen()
		h.fatal(h.x.CheckState())
		for j := 0; j < 24 && len(h.x.Issued) > 0; j++ {
			is := h.x.Issued[rapid.IntRange(0, len(h.x.Issued)-1).Draw(t, "claim")]
			_, what, err := h.x.Credential(is.C)
			h.fatal(err)
			cs[what]++
			rec.Label("credential: %s", what)
		}
		for _, s := range chain.Hist[h.x.ID] {
			if h.x.Off.Find(h.x.ID, s.S) == nil {
				h.fatal(fmt.Errorf("state %x on the chain is not published", s.S))
			}
		}
		on := len(chain.Hist[h.x.ID])
		rec.Label("%d hundred states", on/100)
		rec.Case(on > 256, "%x: %d states, %d claims, %d revoked, %v", h.x.ID[:], on, len(h.x.Issued), len(h.x.Revs), cs)
	})
}

// cheapRevoke revokes the claim that was issued last, if it is not revoked.
func (h *hist) cheapRevoke() bool {
	if len(h.x.Issued) == 0 {
		return false
	}
	is := h.x.Issued[len(h.x.Issued)-1]
	what, err := h.x.Revoke(is.C)
	h.fatal(err)
	h.did(what)
	return what == "revoked"
}
