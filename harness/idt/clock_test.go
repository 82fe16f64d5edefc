package idt

import (
	"fmt"
	"testing"
	"time"

	"verifharness/vh"
	"verifharness/world"

	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"pgregory.net/rapid"
)

// TestS03_Clock: a verifier that goes by the clock notices the time passing.
func TestS03_Clock(t *testing.T) {
	rec := vh.NewRec("S03_Clock", "credentials shown to one verifier that goes by the clock, before and after they expire or get too old; non-trivial: one was accepted, then refused")
	vh.Check(t, 24, 400, func(t *rapid.T) {
		now := time.Now().Unix()
		ago := rapid.Int64Range(100, 100000).Draw(t, "ago")
		chain := world.NewChain(rapid.Uint64Range(1, 1000).Draw(t, "block"), now-ago)
		off := world.NewOff("record", 5)
		x, ok, err := world.Create(chain, off, db.NewMemoryStorage(), issuer.ConfigDefault, rapid.IntRange(0, 20).Draw(t, "key"), nil)
		if err != nil || !ok {
			t.Fatalf("creating an issuer: %v", err)
		}
		cfg := issuer.ConfigDefault
		cfg.GenesisOnly = true
		ho, ok, err := world.Create(chain, nil, db.NewMemoryStorage(), cfg, 41, nil)
		if err != nil || !ok {
			t.Fatalf("creating a holder: %v", err)
		}
		h := &hist{t: t, x: x, seen: map[string]int{}}
		h.fatal(x.Load())
		h.fatal(ho.LoadHolder(x.Off))
		r := &ring{hist: h, ho: ho}
		type credential struct {
			c     *proof.CredentialValidity
			limit int64         // refused after this second, accepted before it
			fresh time.Duration // asked for
			ok    int
		}
		var cs []*credential
		// claims that expire in about two seconds, and others
		specs := []world.Spec{{Kind: "basic"}}
		for i, d := range rapid.SliceOfN(rapid.SampledFrom([]int64{-2, 1, 2, 2, 3, 1000}), 1, 4).Draw(t, "expire in") {
			specs = append(specs, world.Spec{Kind: "generic", I: byte(i), Flags: 0b1000, Exp: now + d})
		}
		for _, s := range specs {
			_, _, err := x.Issue(s, s.Build())
			h.fatal(err)
		}
		h.publish()
		h.mine(1+int(x.Cfg.ConfirmBlocks), "all")
		h.sync()
		h.fatal(x.CheckState())
		for i := range x.Issued {
			is := x.Issued[i]
			cred, _, err := x.Credential(is.C)
			h.fatal(err)
			if cred == nil {
				continue
			}
			c := r.validity(held{is, cred, x.OnChain, x.OnChainAt.N})
			if c == nil {
				continue
			}
			exp, expires := is.Spec.Expires()
			if !expires {
				// too old in about two seconds
				for _, d := range []int64{-2, 1, 2, 3, 1000} {
					cs = append(cs, &credential{c: c, limit: now + d, fresh: time.Duration(now+d-x.OnChainAt.Ts) * time.Second})
				}
				continue
			}
			cs = append(cs, &credential{c: c, limit: exp, fresh: time.Hour * 1000})
		}
		// another state makes the first one old
		s := world.Spec{Kind: "basic", I: 6}
		_, _, err = x.Issue(s, s.Build())
		h.fatal(err)
		h.publish()
		h.mine(1+int(x.Cfg.ConfirmBlocks), "all")
		h.sync()
		if len(cs) < 2 {
			t.Fatalf("there are no credentials to show")
		}
		v := verifier.New(chain)
		nt := false
		for round := 0; round < 3; round++ {
			for _, c := range cs {
				before := time.Now().Unix()
				err := v.VerifyCredentialValidity(c.c, c.fresh)
				after := time.Now().Unix()
				if after < c.limit && err != nil {
					h.fatal(fmt.Errorf("a credential that is good until %d is refused at %d: %v", c.limit, after, err))
				}
				if before > c.limit && err == nil {
					h.fatal(fmt.Errorf("a credential that is good until %d is accepted at %d", c.limit, before))
				}
				if err == nil {
					c.ok++
				}
				nt = nt || err != nil && c.ok > 0
			}
			if round < 2 {
				time.Sleep(1500 * time.Millisecond)
			}
		}
		rec.Case(nt, "%v", specs)
	})
}
