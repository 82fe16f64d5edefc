package cl

import (
	"testing"

	"verifharness/mtx"
	"verifharness/vh"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/genesis"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"
)

// refState is the identity state by definition.
func refState(clr, rer, ror mtx.H) mtx.H { return mtx.MustPoseidon(clr, rer, ror) }

func refID(cs []merkletree.Entrier) (id core.ID, clr, ror mtx.H, ok bool) {
	set := mtx.Set{}
	for _, c := range cs {
		e := mtx.FromE(&c.Entry().Data)
		if _, dup := set[e.Hi()]; dup {
			return id, clr, ror, false
		}
		set[e.Hi()] = e
	}
	clr = set.Root()
	var leaf mtx.Entry
	leaf[0] = clr
	ror = mtx.Set{leaf.Hi(): leaf}.Root()
	st := refState(clr, mtx.H{}, ror)
	copy(id[2:29], st[5:32])
	s := 0
	for _, b := range id[:29] {
		s += int(b)
	}
	id[29], id[30] = byte(s>>8), byte(s)
	return id, clr, ror, true
}

func drawKey(t *rapid.T) fixed {
	for {
		if f := drawClaim(t); f.kind == "key" {
			return f
		}
	}
}

// TestI02_Genesis: the identifier of a new identity is determined by its
// genesis claims, all of them, and nothing else.
func TestI02_Genesis(t *testing.T) {
	rec := vh.NewRec("I02_Genesis", "sets of genesis claims (with repeats) in two orders, compared with the identifier by definition, and with one claim changed or left out; non-trivial: at least 2 claims besides the key")
	vh.Check(t, 4000, 100000, func(t *rapid.T) {
		key := drawKey(t)
		n := rapid.IntRange(0, 6).Draw(t, "extra")
		var cs []fixed
		seen := map[string]bool{key.indexString(): true}
		for i := 0; i < n; i++ {
			f := drawClaim(t)
			if seen[f.indexString()] && rapid.IntRange(0, 3).Draw(t, "keepdup") > 0 {
				continue
			}
			seen[f.indexString()] = true
			cs = append(cs, f)
		}
		mk := func(cs []fixed) (r []merkletree.Entrier) {
			for _, c := range cs {
				r = append(r, c.c)
			}
			return r
		}
		k := key.c.(*claims.ClaimKeyBabyJub)
		want, clr, ror, ok := refID(append([]merkletree.Entrier{k}, mk(cs)...))
		id, err := genesis.CalculateIdGenesis(k, mk(cs))
		if (err == nil) != ok || ok && *id != want {
			t.Fatalf("id %v, %v; want %v (claims repeated: %v)", id, err, want.String(), !ok)
		}
		if ok {
			p := rapid.Permutation(cs).Draw(t, "order")
			clt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
			vh.Must(err)
			rot, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
			vh.Must(err)
			id2, err := genesis.CalculateIdGenesisMT(clt, rot, k, mk(p))
			if err != nil || *id2 != want {
				t.Fatalf("in another order: id %v, %v; want %v", id2, err, want.String())
			}
			if *clt.RootKey() != merkletree.Hash(clr) || *rot.RootKey() != merkletree.Hash(ror) {
				t.Fatalf("the trees have the roots %v %v", clt.RootKey().Hex(), rot.RootKey().Hex())
			}
			st := core.IdenState(clt.RootKey(), &merkletree.HashZero, rot.RootKey())
			if *core.IdGenesisFromIdenState(st) != want {
				t.Fatalf("the state does not give the id")
			}
			for _, c := range append([]fixed{key}, cs...) {
				e := c.c.Entry()
				hi, hv, err := e.HiHv()
				vh.Must(err)
				pr, err := clt.GenerateProof(hi, nil)
				if err != nil || !pr.Existence || !merkletree.VerifyProof(clt.RootKey(), pr, hi, hv) {
					t.Fatalf("the genesis claim %v can't be proved: %v", c, err)
				}
			}
			// another set of claims is another identity
			q := append([]fixed{}, cs...)
			switch what := rapid.IntRange(0, 2).Draw(t, "change"); {
			case what == 0 && len(q) > 0:
				q = q[1:]
			case what == 1 && len(q) > 0:
				m := q[0].c.Metadata()
				old := m.RevNonce
				m.RevNonce++
				defer func() { m.RevNonce = old }()
			default:
				extra := claims.NewClaimBasic([claims.IndexSlotLen]byte{7, 7, 7, 7}, [claims.ValueSlotLen]byte{})
				q = append(q, fixed{c: extra})
			}
			id3, err := genesis.CalculateIdGenesis(k, mk(q))
			if err == nil && *id3 == want {
				t.Fatalf("another set of claims has the same id")
			}
		}
		rec.LabelIf(!ok, "repeated claims")
		rec.Case(len(cs) >= 2 && ok, "%v %v", key, cs)
	})
}

// TestI02_State: the identity state is the hash of the three roots.
func TestI02_State(t *testing.T) {
	rec := vh.NewRec("I02_State", "triples of roots; non-trivial: they differ from each other")
	vh.Check(t, 3000, 60000, func(t *rapid.T) {
		var h [3]merkletree.Hash
		for i := range h {
			h[i] = merkletree.Hash(mtx.Elem(false).Draw(t, "root"))
		}
		want := merkletree.Hash(refState(mtx.H(h[0]), mtx.H(h[1]), mtx.H(h[2])))
		if got := core.IdenState(&h[0], &h[1], &h[2]); *got != want {
			t.Fatalf("state of %x is %x want %x", h, got[:], want)
		}
		if got, err := core.CalcIdenState(&h[0], &h[1], &h[2]); err != nil || *got != want {
			t.Fatalf("state of %x is %v, %v want %x", h, got, err, want)
		}
		// a root that is missing or no element
		bad := [3]*merkletree.Hash{&h[0], &h[1], &h[2]}
		for n := rapid.IntRange(1, 3).Draw(t, "bad roots"); n > 0; n-- {
			i := rapid.IntRange(0, 2).Draw(t, "bad")
			bad[i] = nil
			if rapid.Bool().Draw(t, "no element") {
				x := merkletree.Hash(mtx.Elem(false).Draw(t, "root"))
				x[31] |= 0x80
				bad[i] = &x
			}
		}
		var err error
		if m := vh.Catch(func() { _, err = core.CalcIdenState(bad[0], bad[1], bad[2]) }); m != "" || err == nil {
			t.Fatalf("state of %v: %v %s", bad, err, m)
		}
		i, j := rapid.IntRange(0, 2).Draw(t, "i"), rapid.IntRange(0, 2).Draw(t, "j")
		if h[i] != h[j] {
			g := h
			g[i], g[j] = g[j], g[i]
			if got := core.IdenState(&g[0], &g[1], &g[2]); *got == want {
				t.Fatalf("the state does not tell %x from %x", h, g)
			}
		}
		rec.Case(h[0] != h[1] && h[1] != h[2], "%x", h)
	})
}
