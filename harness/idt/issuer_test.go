// Package idt checks issuers, holders and verifiers: histories of an identity
// against a reference model, with a simulated chain and toy circuits.
package idt

import (
	"fmt"
	"testing"

	"verifharness/faultdb"
	"verifharness/mtx"
	"verifharness/vh"
	"verifharness/world"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// exps are expirations around the time the chain starts at.
var exps = []int64{0, 1, start - 1, start, start + 500, start + 1<<40, -1}

const start = 1600000000

// hist is a history of one issuer.
type hist struct {
	t     *rapid.T
	x     *world.Ident
	box   *faultdb.Box
	trace []string
	seen  map[string]int
}

func (h *hist) log(format string, a ...interface{}) {
	h.trace = append(h.trace, fmt.Sprintf(format, a...))
}

func (h *hist) fatal(err error) {
	if err != nil {
		h.t.Fatalf("%v\nafter:\n%s", err, lines(h.trace))
	}
}

func lines(s []string) (r string) {
	for i, l := range s {
		r += fmt.Sprintf("  %d %s\n", i+1, l)
	}
	return r
}

func drawCfg(t *rapid.T) issuer.Config {
	cfg := issuer.ConfigDefault
	cfg.ConfirmBlocks = rapid.SampledFrom([]uint64{0, 1, 3, 3, 6}).Draw(t, "confirm")
	if rapid.IntRange(0, 4).Draw(t, "small trees") == 0 {
		cfg.MaxLevelsClaimsTree = rapid.SampledFrom([]int{3, 4, 6, 140}).Draw(t, "claims levels")
		cfg.MaxLevelsRevocationTree = rapid.SampledFrom([]int{2, 3, 140}).Draw(t, "revocation levels")
		cfg.MaxLevelsRootsTree = rapid.SampledFrom([]int{3, 140, 140}).Draw(t, "roots levels")
	}
	return cfg
}

// begin makes an issuer; nil when the genesis was refused, as it should.
func begin(t *rapid.T, chain *world.Chain, key int) *hist {
	h := &hist{t: t, seen: map[string]int{}}
	h.box = faultdb.NewBox(rapid.SampledFrom([]string{"mem", "mem", "memprefix", "level"}).Draw(t, "storage"), []byte("iden:"))
	off := world.NewOff(rapid.SampledFrom(world.OffKinds).Draw(t, "offchain"), rapid.ByteRange(1, 9).Draw(t, "cache"))
	cfg := drawCfg(t)
	var extra []world.Spec
	for i := rapid.IntRange(0, 3).Draw(t, "extra"); i > 0; i-- {
		extra = append(extra, world.DrawSpec(t, exps))
	}
	x, ok, err := world.Create(chain, off, h.box.Storage(), cfg, key, extra)
	if (err == nil) != ok {
		h.box.Close()
		t.Fatalf("creating an identity with %v: %v", extra, err)
	}
	if err != nil {
		h.box.Close()
		return nil
	}
	h.x = x
	h.log("create %+v extra %v off chain %s storage %s", cfg, extra, off.URL, h.box.Kind)
	h.fatal(x.Load())
	h.fatal(x.CheckState())
	return h
}

func (h *hist) did(what string) { h.seen[what]++; h.log("   %s", what) }

func (h *hist) issue() *world.Issued {
	s := world.DrawSpec(h.t, exps)
	c := s.Build()
	if rapid.IntRange(0, 3).Draw(h.t, "own nonce") == 0 {
		c.Metadata().RevNonce = rapid.Uint32Range(0, 5).Draw(h.t, "nonce")
	}
	h.log("issue %v", s)
	is, what, err := h.x.Issue(s, c)
	h.fatal(err)
	h.did(what)
	return is
}

// pick is a claim that may have been issued: a known one (as the object that
// was issued, or as its entry), the key claim, another value of a known one or
// a new one.
func (h *hist) pick() (merkletree.Entrier, string) {
	n := len(h.x.Issued)
	k := rapid.IntRange(0, 9).Draw(h.t, "which")
	if n == 0 && k < 8 {
		k = 8
	}
	switch k {
	case 8:
		return world.Ent{E: h.x.KOpEntry}, "key"
	case 9:
		s := world.DrawSpec(h.t, exps)
		return s.Build(), "new " + s.String()
	}
	is := h.x.Issued[rapid.IntRange(0, n-1).Draw(h.t, "claim")]
	switch k {
	case 0, 1, 2, 3:
		return is.C, "object " + is.Spec.String()
	case 7:
		e := is.E
		i := rapid.IntRange(4, 7).Draw(h.t, "elem")
		e[i][rapid.IntRange(0, 30).Draw(h.t, "byte")] ^= 1
		return world.Ent{E: e}, "other value of " + is.Spec.String()
	}
	return claims.NewClaimGeneric(is.E.E()), "entry " + is.Spec.String()
}

func (h *hist) revoke() {
	c, what := h.pick()
	h.log("revoke %s", what)
	r, err := h.x.Revoke(c)
	h.fatal(err)
	h.did(r)
}

func (h *hist) publish() {
	h.log("publish")
	r, err := h.x.Publish()
	h.fatal(err)
	h.did(r)
}

func (h *hist) sync() {
	h.log("sync")
	r, err := h.x.Sync()
	h.fatal(err)
	h.did(r)
}

func (h *hist) mine(n int, mode string) {
	h.log("mine %d %s", n, mode)
	for i := 0; i < n; i++ {
		h.x.Chain.Mine(rapid.Int64Range(1, 100).Draw(h.t, "seconds"), func(*world.Tx) (bool, bool) {
			return mode != "none", mode == "reject"
		})
	}
}

func (h *hist) reopen() {
	h.log("reopen")
	h.box.Reopen()
	h.x.Store = h.box.Storage()
	h.fatal(h.x.Load())
	h.did("reopened: " + h.x.Synced())
}

func (h *hist) credential() {
	c, what := h.pick()
	h.log("credential %s", what)
	_, r, err := h.x.Credential(c)
	h.fatal(err)
	h.did(r)
}

// step does one thing, by weight.
func (h *hist) step(weights map[string]int, order []string) {
	var bag []string
	for _, o := range order {
		for i := 0; i < weights[o]; i++ {
			bag = append(bag, o)
		}
	}
	switch rapid.SampledFrom(bag).Draw(h.t, "op") {
	case "issue":
		h.issue()
	case "revoke":
		h.revoke()
	case "publish":
		h.publish()
	case "sync":
		h.sync()
	case "mine":
		h.mine(rapid.IntRange(1, 4).Draw(h.t, "blocks"), rapid.SampledFrom([]string{"all", "all", "all", "none", "reject"}).Draw(h.t, "mode"))
	case "confirm":
		h.mine(1, "all")
		// at any of the blocks that confirm it, also the last before
		each := rapid.Bool().Draw(h.t, "synchronize at each")
		for i := h.x.Cfg.ConfirmBlocks; i > 0; i-- {
			if each || i == 1 && rapid.Bool().Draw(h.t, "synchronize before") {
				h.sync()
				h.fatal(h.x.CheckState())
			}
			h.mine(1, "all")
		}
		h.sync()
	case "round":
		h.issue()
		h.publish()
		h.mine(1+int(h.x.Cfg.ConfirmBlocks), "all")
		h.sync()
	case "reopen":
		h.reopen()
	case "credential":
		h.credential()
	}
	h.fatal(h.x.CheckState())
}

var ops = []string{"issue", "revoke", "publish", "sync", "mine", "confirm", "reopen", "credential", "round"}

// TestS01_History: whatever the history, what the issuer says about its state,
// what it sends to the chain and what it publishes off chain is what follows
// from the claims issued and revoked.
func TestS01_History(t *testing.T) {
	rec := vh.NewRec("S01_History", "histories of 5 to 40 steps: issue, revoke, publish, synchronize, mine (or not, or rejected), reopen, compared with a model of the three trees and of the chain after every step; non-trivial: at least 2 states were published")
	vh.Check(t, 400, 10000, func(t *rapid.T) {
		chain := world.NewChain(rapid.Uint64Range(1, 1000).Draw(t, "block"), start)
		h := begin(t, chain, rapid.IntRange(0, 20).Draw(t, "key"))
		if h == nil {
			rec.Label("genesis refused")
			return
		}
		defer h.box.Close()
		w := map[string]int{"issue": 5, "revoke": 3, "publish": 4, "sync": 3, "mine": 3, "confirm": 3, "reopen": 2, "credential": 1, "round": 2}
		n := rapid.SampledFrom([]int{5, 12, 20, 30, 40}).Draw(t, "steps")
		for i := 0; i < n; i++ {
			h.step(w, ops)
		}
		// the chain goes on: what is pending ends on the chain
		if h.x.Pending >= 0 {
			if !h.x.Transacted {
				h.publish()
			}
			h.mine(1, "all")
			h.mine(int(h.x.Cfg.ConfirmBlocks), "all")
			h.sync()
			if h.x.Pending >= 0 && h.x.Transacted == false { // it had been rejected
				h.publish()
				h.mine(1+int(h.x.Cfg.ConfirmBlocks), "all")
				h.sync()
			}
			h.fatal(h.x.CheckState())
			if h.x.Pending >= 0 {
				h.fatal(fmt.Errorf("the pending state never got on the chain"))
			}
		}
		// every state on the chain follows from the one before and was
		// published off chain
		for _, s := range chain.Hist[h.x.ID] {
			found := false
			for _, l := range h.x.List {
				found = found || l.S == s.S
			}
			if !found || h.x.Off.Find(h.x.ID, s.S) == nil {
				h.fatal(fmt.Errorf("state %x on the chain is not of this history (%v) or is not published", s.S, found))
			}
		}
		if rapid.IntRange(0, 4).Draw(t, "foreign") == 0 {
			// a state nobody knows shows up on the chain
			f := mtx.MustPoseidon(world.H{1}, world.H{2})
			if rapid.Bool().Draw(t, "while pending") {
				// (there may be nothing to publish)
				h.issue()
				h.publish()
				h.mine(1+int(h.x.Cfg.ConfirmBlocks), rapid.SampledFrom([]string{"all", "reject"}).Draw(t, "mode"))
			}
			chain.Force(h.x.ID, f)
			if h.x.Pending >= 0 && h.x.Transacted {
				h.did("foreign state while pending")
			}
			if err := h.x.Is.SyncIdenStatePublic(); err == nil {
				h.fatal(fmt.Errorf("an unknown state on the chain is not noticed"))
			}
			h.fatal(h.x.CheckState())
			if err := h.x.Load(); err == nil {
				h.fatal(fmt.Errorf("an unknown state on the chain is not noticed when loading"))
			}
			h.did("foreign state")
		}
		for k, v := range h.seen {
			for i := 0; i < v; i++ {
				rec.Label("%s", k)
			}
		}
		rec.LabelIf(len(h.x.List) > 3, "more than 2 states published")
		rec.Case(len(h.x.List) > 2, "%v", h.trace)
	})
}

// TestS02_Credentials: a credential is given exactly for the claims under the
// state on the chain, with the parts of that state; nonces are unique;
// revoking a claim concerns that claim alone.
func TestS02_Credentials(t *testing.T) {
	rec := vh.NewRec("S02_Credentials", "histories with few claims repeated, issued before and after the state on the chain, asked for by object, by entry and with another value; all claims asked for at the end; non-trivial: a claim under the state on the chain and a claim issued later")
	vh.Check(t, 320, 8000, func(t *rapid.T) {
		chain := world.NewChain(rapid.Uint64Range(1, 1000).Draw(t, "block"), start)
		h := begin(t, chain, rapid.IntRange(0, 20).Draw(t, "key"))
		if h == nil {
			rec.Label("genesis refused")
			return
		}
		defer h.box.Close()
		w := map[string]int{"issue": 6, "revoke": 3, "publish": 1, "confirm": 1, "reopen": 1, "credential": 4}
		for r := rapid.IntRange(1, 3).Draw(t, "rounds"); r > 0; r-- {
			n := rapid.IntRange(2, 12).Draw(t, "steps")
			for i := 0; i < n; i++ {
				h.step(w, ops)
			}
			h.publish()
			if h.x.Transacted {
				h.mine(1+int(h.x.Cfg.ConfirmBlocks), "all")
			}
			h.sync()
			n = rapid.IntRange(0, 4).Draw(t, "later")
			for i := 0; i < n; i++ {
				h.issue()
			}
		}
		under, later := 0, 0
		for _, is := range h.x.Issued {
			c := merkletree.Entrier(is.C)
			if is.C.Metadata().RevNonce != is.Nonce {
				h.fatal(fmt.Errorf("the nonce of %v changed from %d to %d", is.Spec, is.Nonce, is.C.Metadata().RevNonce))
			}
			_, what, err := h.x.Credential(c)
			h.fatal(err)
			switch what {
			case "credential":
				under++
			case "credential of unpublished claim":
				later++
			}
			h.did(what)
		}
		for k, v := range h.seen {
			for i := 0; i < v; i++ {
				rec.Label("%s", k)
			}
		}
		rec.Case(under > 0 && later > 0, "%v", h.trace)
	})
}

// TestS01_GenesisOnly: an identity without a chain never changes.
func TestS01_GenesisOnly(t *testing.T) {
	rec := vh.NewRec("S01_GenesisOnly", "identities that are only a genesis, with 0 to 3 claims, opened without a chain: every operation that would change them is refused; non-trivial: extra claims")
	vh.Check(t, 200, 4000, func(t *rapid.T) {
		chain := world.NewChain(5, start)
		cfg := issuer.ConfigDefault
		cfg.GenesisOnly = true
		var extra []world.Spec
		for i := rapid.IntRange(0, 3).Draw(t, "extra"); i > 0; i-- {
			extra = append(extra, world.DrawSpec(t, exps))
		}
		st := db.NewMemoryStorage()
		x, ok, err := world.Create(chain, world.NewOff("record", 1), st, cfg, rapid.IntRange(0, 20).Draw(t, "key"), extra)
		if (err == nil) != ok {
			t.Fatalf("creating: %v", err)
		}
		if err != nil {
			return
		}
		for i := 0; i < 2; i++ {
			is, err := issuer.Load(st, x.KS, nil, nil, nil)
			if err != nil {
				t.Fatalf("loading: %v", err)
			}
			x.Is = is
			c := world.DrawSpec(t, exps).Build()
			n := c.Metadata().RevNonce
			_, e1 := is.GenCredentialExistence(world.Ent{E: x.KOpEntry})
			for what, err := range map[string]error{"issue": is.IssueClaim(c), "revoke": is.RevokeClaim(world.Ent{E: x.KOpEntry}), "publish": is.PublishState(), "sync": is.SyncIdenStatePublic(), "credential": e1} {
				if err != issuer.ErrIdenGenesisOnly {
					t.Fatalf("%s of a genesis only identity: %v", what, err)
				}
			}
			if c.Metadata().RevNonce != n {
				t.Fatalf("the claim that was refused changed")
			}
			if err := x.CheckState(); err != nil {
				t.Fatal(err)
			}
		}
		if _, err := issuer.Load(db.NewMemoryStorage(), x.KS, nil, nil, nil); err == nil {
			t.Fatalf("an identity was loaded from an empty storage")
		}
		rec.Case(len(extra) > 0, "%v", extra)
	})
}
