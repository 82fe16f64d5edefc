package idt

import (
	"fmt"
	"testing"

	"verifharness/faultdb"
	"verifharness/mtx"
	"verifharness/vh"
	"verifharness/world"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	"pgregory.net/rapid"
)

// fz is a history of one issuer with faults: the model follows what the issuer
// reports, as far as it is allowed to happen.
type fz struct {
	*hist
	plan   *faultdb.Plan
	counts map[string]int // how many storage operations an operation took
	fired  bool           // a fault of the chain or of the off chain place
}

func (f *fz) bad(format string, a ...interface{}) { f.fatal(fmt.Errorf(format, a...)) }

// arm chooses the faults of one operation.
func (f *fz) arm(op string) {
	f.plan.Reset()
	f.fired = false
	var call string
	var before bool
	f.x.Chain.Fault = nil
	f.x.Off.Fault = nil
	calls := map[string][]string{"publish": {"SetState", "SetState", "offchain"}, "sync": {"GetState", "TxConfirmBlocks", "offchain"}, "load": {"GetState", "TxConfirmBlocks", "offchain"}}[op]
	if len(calls) == 0 || rapid.IntRange(0, 2).Draw(f.t, "inside") > 0 {
		n := f.counts[op]
		if n < 3 {
			n = 3
		}
		at := make([]int, n)
		for i := range at {
			at[i] = n - i
		}
		k := rapid.SampledFrom(at).Draw(f.t, "at")
		switch rapid.SampledFrom([]string{"fail", "fail all", "crash before", "crash after"}).Draw(f.t, "how") {
		case "fail":
			f.plan.FailAt = k
		case "fail all":
			f.plan.FailAt, f.plan.FailFor = k, 1<<30
		case "crash before":
			f.plan.CrashBefore = k
		case "crash after":
			f.plan.CrashAfter = k
		}
		f.log("  with storage fault: fail at %d for %d, crash before %d, after %d", f.plan.FailAt, f.plan.FailFor, f.plan.CrashBefore, f.plan.CrashAfter)
	} else {
		call = rapid.SampledFrom(calls).Draw(f.t, "call")
		before = rapid.Bool().Draw(f.t, "before")
		f.log("  with a fault of %s (before %v)", call, before)
		if call == "offchain" {
			f.x.Off.Fault = func() (bool, bool) { f.fired = true; return before, !before }
		} else {
			f.x.Chain.Fault = func(c string) (bool, bool) {
				if c != call && !(c == "InitState" && call == "SetState") {
					return false, false
				}
				f.fired = true
				return before, !before
			}
		}
	}
}

// run does an operation with faults; crashed when the process would be gone.
func (f *fz) run(op string, do func() error) (err error, crashed bool) {
	f.log("%s", op)
	if rapid.IntRange(0, 2).Draw(f.t, "calm") > 0 {
		f.arm(op)
	} else {
		f.plan.Reset()
		f.fired = false
	}
	crashed = faultdb.Run(func() { err = do() })
	if !f.plan.Fired && !f.fired {
		f.counts[op] = f.plan.N
	} else {
		f.did(fmt.Sprintf("fault in %s, error %v, crash %v", op, err != nil, crashed))
	}
	f.fired = f.fired || f.plan.Fired
	f.plan.Reset()
	f.x.Chain.Fault, f.x.Off.Fault = nil, nil
	f.log("   error %v, crash %v", err, crashed)
	if f.x.Off.Bad != "" {
		f.bad("%s", f.x.Off.Bad)
	}
	if err != nil && !f.fired && op != "publish" && op != "issue" && op != "revoke" && op != "credential" {
		f.bad("%s fails without a fault: %v", op, err)
	}
	return err, crashed
}

// observe takes over what the issuer reports, if it may be.
func (f *fz) observe(published, synced bool) {
	x := f.x
	s, r := x.Is.State()
	if world.H(*r.ClaimsTreeRoot) != x.Claims.Root() || world.H(*r.RevocationsTreeRoot) != x.Revs.Root() {
		f.bad("claims and revocations roots are %v %v, should be %x %x", r.ClaimsTreeRoot.Hex(), r.RevocationsTreeRoot.Hex(), x.Claims.Root(), x.Revs.Root())
	}
	if world.H(*r.RootsTreeRoot) != x.Roots.Root() {
		rl := world.RootLeaf(x.Claims.Root())
		n := x.Roots.Clone()
		n[rl.Hi()] = rl
		if !published || n.Root() != world.H(*r.RootsTreeRoot) {
			f.bad("roots tree has root %v, should have %x, or %x with the new root", r.RootsTreeRoot.Hex(), x.Roots.Root(), n.Root())
		}
		x.Roots = n
	}
	now := x.Now()
	if world.H(*s) != now.S {
		f.bad("state is %v, should be %x", s.Hex(), now.S)
	}
	ph, tr := x.Is.IdenStatePending()
	pend := world.H(*ph)
	on := world.H(*x.Is.IdenStateOnChain())
	var wasOn, wasPend world.H
	if x.OnChain >= 0 {
		wasOn = x.List[x.OnChain].S
	}
	if x.Pending >= 0 {
		wasPend = x.List[x.Pending].S
	}
	none := world.H{}
	if on != wasOn {
		l, _ := x.Chain.Latest(x.ID)
		if !synced || wasPend == none || on != wasPend || l.S != on {
			f.bad("the state on the chain becomes %x: it was %x, pending %x, the chain has %x", on, wasOn, wasPend, l.S)
		}
		x.OnChain, x.OnChainAt = x.Pending, l
		x.Pending, x.Transacted = -1, false
		wasPend = none
		f.did("confirmed")
	}
	if d := x.Is.StateDataOnChain(); x.OnChain >= 0 && !x.OnChainAt.Same(d) {
		f.bad("data of the state on the chain is %+v, should be %+v", d, x.OnChainAt)
	}
	switch {
	case pend == wasPend && tr == x.Transacted:
	case pend == wasPend && pend != none && tr && published:
		// it was sent
		found := false
		for _, t := range x.Chain.All {
			found = found || t.ID == x.ID && t.New == pend
		}
		if !found {
			f.bad("the pending state %x counts as sent, but it was not", pend)
		}
	case pend == wasPend && pend != none && !tr && synced:
		failed := false
		for _, t := range x.Chain.All {
			failed = failed || t.ID == x.ID && t.New == pend && t.Mined && !t.OK
		}
		if !failed {
			f.bad("the pending state %x counts as not sent, but it did not fail", pend)
		}
		f.did("transaction failed")
	case wasPend == none && pend == now.S && pend != x.List[len(x.List)-1].S && published:
		rl := world.RootLeaf(now.Clr)
		if _, ok := x.Roots[rl.Hi()]; !ok {
			f.bad("a state is published whose claims root is not in the roots tree")
		}
		x.List = append(x.List, now)
		x.Pending = len(x.List) - 1
		if tr {
			found := false
			for _, t := range x.Chain.All {
				found = found || t.ID == x.ID && t.New == pend
			}
			if !found {
				f.bad("the pending state %x counts as sent, but it was not", pend)
			}
		}
	default:
		f.bad("pending state is %x (sent: %v), it was %x (sent: %v)", pend, tr, wasPend, x.Transacted)
	}
	x.Transacted = tr
	for _, p := range x.Off.Pubs {
		ok := false
		for _, l := range x.List {
			if l.S == p.State {
				ok = true
				f.fatal(x.CheckPub(p, l))
			}
		}
		if !ok {
			f.bad("a state %x is published off chain that is not of this history", p.State)
		}
	}
}

// reload opens the identity without faults and without a look at it.
func (f *fz) reload() {
	f.box.Reopen()
	f.x.Store = &faultdb.Storage{S: f.box.Storage(), P: f.plan}
	f.fatal(f.x.Load())
}

// load opens the identity, with faults or without.
func (f *fz) load(calm bool) {
	for {
		f.box.Reopen()
		f.x.Store = &faultdb.Storage{S: f.box.Storage(), P: f.plan}
		var err error
		crashed := false
		if calm {
			f.log("load")
			err = f.x.Load()
		} else {
			err, crashed = f.run("load", f.x.Load)
		}
		if err == nil && !crashed {
			break
		}
		if calm {
			f.bad("loading fails: %v", err)
		}
		calm = true
	}
	f.observe(false, true)
}

func (f *fz) issue() {
	x := f.x
	s := world.DrawSpec(f.t, exps)
	c := s.Build()
	c.Metadata().RevNonce = 7777777
	hi := s.Entry(0).Hi()
	_, dup := x.Claims[hi]
	fits := x.Claims.Fits(hi, x.Cfg.MaxLevelsClaimsTree)
	err, crashed := f.run("issue", func() error { return x.Is.IssueClaim(c) })
	n := c.Metadata().RevNonce
	if crashed {
		// it was issued, or not
		f.reload()
		_, r := x.Is.State()
		if world.H(*r.ClaimsTreeRoot) != x.Claims.Root() {
			if dup || !fits {
				f.bad("claim %v is issued: repeated %v fits %v", s, dup, fits)
			}
			_, _, e := x.Added(s, c)
			f.fatal(e)
			f.did("crash, issued")
		}
		f.observe(false, true)
		return
	}
	if err != nil {
		if n != 7777777 {
			f.bad("a claim that was not issued has the nonce %d", n)
		}
		if !f.fired && !dup && fits {
			f.bad("issuing %v fails without a fault: %v", s, err)
		}
	} else {
		if dup || !fits {
			f.bad("claim %v is issued: repeated %v fits %v", s, dup, fits)
		}
		_, _, e := x.Added(s, c)
		f.fatal(e)
	}
	f.observe(false, false)
}

func (f *fz) revoke() {
	x := f.x
	c, what := f.pick()
	e := mtx.FromE(&c.Entry().Data)
	in, ok := x.Claims[e.Hi()]
	rev := world.Rev(world.Nonce(in))
	_, twice := x.Revs[rev.Hi()]
	can := ok && !twice && x.Revs.Fits(rev.Hi(), x.Cfg.MaxLevelsRevocationTree)
	err, crashed := f.run("revoke", func() error { return x.Is.RevokeClaim(c) })
	f.log("   of %s", what)
	switch {
	case crashed:
		f.reload()
		_, r := x.Is.State()
		if can && world.H(*r.RevocationsTreeRoot) != x.Revs.Root() {
			x.Revs[rev.Hi()] = rev
			f.did("crash, revoked")
		}
		f.observe(false, true)
		return
	case err == nil && !can:
		f.bad("revoking %s: issued %v, twice %v", what, ok, twice)
	case err == nil:
		x.Revs[rev.Hi()] = rev
	case can && !f.fired:
		f.bad("revoking %s fails without a fault: %v", what, err)
	}
	f.observe(false, false)
}

func (f *fz) publish() {
	x := f.x
	wasPending := x.Pending >= 0 && x.Transacted
	last := x.List[len(x.List)-1]
	now := x.Now()
	rl := world.RootLeaf(now.Clr)
	_, has := x.Roots[rl.Hi()]
	full := now.Clr != last.Clr && !has && !x.Roots.Fits(rl.Hi(), x.Cfg.MaxLevelsRootsTree)
	txs := len(x.Chain.All)
	err, crashed := f.run("publish", x.Is.PublishState)
	if wasPending && len(x.Chain.All) != txs {
		f.bad("a state was sent while another one is pending")
	}
	if crashed {
		f.reload()
		f.observe(true, true)
		return
	}
	f.observe(true, false)
	offChain := func() {
		for _, l := range x.List[1:] {
			if x.Off.Find(x.ID, l.S) == nil {
				f.bad("the state %x is not published off chain, though publishing did not fail", l.S)
			}
		}
	}
	if f.fired {
		if err == nil {
			offChain()
		}
		return
	}
	switch {
	case wasPending:
		if err != issuer.ErrIdenStatePendingNotNil {
			f.bad("publishing while a state is pending: %v", err)
		}
	case full:
		if err == nil && x.Pending >= 0 && x.List[x.Pending].Clr == now.Clr {
			f.bad("the claims root does not fit in the roots tree")
		}
	case err != nil:
		f.bad("publishing fails without a fault: %v", err)
	case x.Pending >= 0 && !x.Transacted:
		f.bad("the state was not sent")
	}
	if err == nil || wasPending {
		offChain()
	}
}

func (f *fz) sync() {
	_, crashed := f.run("sync", f.x.Is.SyncIdenStatePublic)
	if crashed {
		f.load(true)
		return
	}
	f.observe(false, true)
}

func (f *fz) credential() {
	c, what := f.pick()
	f.log("credential of %s", what)
	f.plan.Reset()
	if rapid.Bool().Draw(f.t, "calm") {
		_, r, err := f.x.Credential(c)
		f.fatal(err)
		f.did(r)
		return
	}
	f.arm("credential")
	var bad string
	crashed := faultdb.Run(func() {
		cred, err := f.x.Is.GenCredentialExistence(c)
		if err == nil {
			st := f.x.List[f.x.OnChain]
			en := mtx.FromE(&c.Entry().Data)
			if in, ok := st.Claims[en.Hi()]; !ok || in != en {
				bad = "a credential of another claim"
			} else if er := f.x.CheckCred(cred, en, st, f.x.OnChainAt); er != nil {
				bad = er.Error()
			}
			return
		}
		// that it can't be found out is not that it isn't there
		en := mtx.FromE(&c.Entry().Data)
		if cur, ok := f.x.Claims[en.Hi()]; ok && cur == en && err == issuer.ErrClaimNotFoundClaimsTree {
			bad = "an issued claim is said not to be issued"
		}
		if f.x.OnChain >= 0 {
			if in, ok := f.x.List[f.x.OnChain].Claims[en.Hi()]; ok && in == en && err == issuer.ErrClaimNotYetInOnChainState {
				bad = "a claim under the state on the chain is said not to be"
			}
		}
	})
	f.plan.Reset()
	f.x.Chain.Fault, f.x.Off.Fault = nil, nil
	if bad != "" {
		f.bad("%s", bad)
	}
	if crashed {
		f.load(true)
	}
	f.observe(false, true)
}

// locked opens the identity with keys that are locked: a state can't be
// proven.
func (f *fz) locked() {
	x := f.x
	ks := x.KS
	m := keystore.MemStorage{}
	k0, err := keystore.NewKeyStore(&m, keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1})
	vh.Must(err)
	_, err = k0.ImportKey(x.Sk, world.Pass)
	vh.Must(err)
	k1, err := keystore.NewKeyStore(&m, keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1})
	vh.Must(err)
	x.KS = k1
	f.log("with locked keys:")
	f.load(true)
	before := len(x.Chain.All)
	err = x.Is.PublishState()
	f.log("publish: %v", err)
	f.observe(true, false)
	if len(x.Chain.All) != before {
		f.bad("a state was sent without the key")
	}
	x.KS = ks
	f.load(true)
	f.did("locked")
}

// converge lets everything go well from now on: all that was issued ends on
// the chain.
func (f *fz) converge() {
	x := f.x
	if rapid.Bool().Draw(f.t, "load") {
		f.load(true)
	}
	for i := 0; ; i++ {
		f.log("round of recovery")
		if err := x.Is.SyncIdenStatePublic(); err != nil {
			f.bad("synchronizing fails: %v", err)
		}
		f.observe(false, true)
		err := x.Is.PublishState()
		f.log("publish: %v", err)
		f.observe(true, false)
		if err != nil && err != issuer.ErrIdenStatePendingNotNil {
			rl := world.RootLeaf(x.Claims.Root())
			if _, has := x.Roots[rl.Hi()]; !has && !x.Roots.Fits(rl.Hi(), x.Cfg.MaxLevelsRootsTree) {
				f.did("roots tree full")
				break
			}
			f.bad("publishing fails: %v", err)
		}
		f.mine(1+int(x.Cfg.ConfirmBlocks), "all")
		if x.Pending < 0 && x.List[len(x.List)-1].Clr == x.Now().Clr && x.List[len(x.List)-1].Rer == x.Now().Rer {
			break
		}
		if i == 6 {
			f.bad("the changes never get on the chain")
		}
	}
	// every state on the chain is known, published and followed by the next
	var lastRoots mtx.Set
	for _, s := range x.Chain.Hist[x.ID] {
		var l *world.Snap
		for i := range x.List {
			if x.List[i].S == s.S {
				l = &x.List[i]
			}
		}
		if l == nil {
			f.bad("the state %x on the chain is not of this history", s.S)
		}
		if x.Off.Find(x.ID, s.S) == nil {
			f.bad("the state %x on the chain is not published off chain", s.S)
		}
		rl := world.RootLeaf(l.Clr)
		if _, ok := x.Roots[rl.Hi()]; !ok {
			f.bad("the roots tree lacks the claims root of state %x", s.S)
		}
		for k := range lastRoots {
			if _, ok := l.Roots[k]; !ok {
				f.bad("the roots tree of state %x lost a root", s.S)
			}
		}
		lastRoots = l.Roots
	}
	seen := map[uint32]bool{world.Nonce(x.KOpEntry): true}
	for _, is := range x.Issued {
		if seen[is.Nonce] {
			f.bad("two claims have the nonce %d", is.Nonce)
		}
		seen[is.Nonce] = true
		if x.OnChain < 0 {
			continue
		}
		_, what, err := x.Credential(claims.NewClaimGeneric(is.E.E()))
		f.fatal(err)
		f.did(what)
	}
}

// TestS05_Histories: whatever fails or crashes along the way, nothing
// contradicts the history, and everything ends on the chain once it works
// again.
func TestS05_Histories(t *testing.T) {
	rec := vh.NewRec("S05_Histories", "histories of 5 to 30 steps where storage operations, calls to the chain (before or after they take effect) and publications fail, or the process crashes at a storage operation, two steps out of three; then all works again; non-trivial: at least 3 faults hit and one state was published")
	vh.Check(t, 480, 12000, func(t *rapid.T) {
		chain := world.NewChain(rapid.Uint64Range(1, 1000).Draw(t, "block"), start)
		h := begin(t, chain, rapid.IntRange(0, 20).Draw(t, "key"))
		if h == nil {
			rec.Label("genesis refused")
			return
		}
		defer h.box.Close()
		f := &fz{hist: h, plan: &faultdb.Plan{}, counts: map[string]int{}}
		f.load(true)
		bag := []string{"issue", "issue", "revoke", "revoke", "publish", "publish", "publish", "sync", "sync", "mine", "mine", "confirm", "load", "credential", "locked"}
		for i := rapid.SampledFrom([]int{5, 12, 20, 30}).Draw(t, "steps"); i > 0; i-- {
			switch rapid.SampledFrom(bag).Draw(t, "op") {
			case "issue":
				f.issue()
			case "revoke":
				f.revoke()
			case "publish":
				f.publish()
			case "sync":
				f.sync()
			case "mine":
				f.mine(rapid.IntRange(1, 4).Draw(t, "blocks"), rapid.SampledFrom([]string{"all", "all", "none", "reject"}).Draw(t, "mode"))
			case "confirm":
				f.mine(1+int(f.x.Cfg.ConfirmBlocks), "all")
				f.sync()
			case "load":
				f.load(false)
			case "credential":
				f.credential()
			case "locked":
				if rapid.IntRange(0, 2).Draw(t, "locked") == 0 {
					f.locked()
				}
			}
		}
		f.converge()
		hit := 0
		for k, v := range h.seen {
			if len(k) > 8 && k[:8] == "fault in" {
				hit += v
			}
			for i := 0; i < v; i++ {
				rec.Label("%s", k)
			}
		}
		rec.Case(hit >= 3 && len(h.x.List) > 1, "%v", h.trace)
	})
}

var _ = merkletree.HashZero

// TestS05_Create: creating an identity happens completely or not at all.
func TestS05_Create(t *testing.T) {
	rec := vh.NewRec("S05_Create", "creations where one storage operation, or all from one on, fail, or that crash before or after it, for every operation of the creation; what loads afterwards is the whole identity or nothing; non-trivial: extra claims")
	vh.Check(t, 80, 2000, func(t *rapid.T) {
		chain := world.NewChain(5, start)
		cfg := drawCfg(t)
		var extra []world.Spec
		for i := rapid.IntRange(0, 3).Draw(t, "extra"); i > 0; i-- {
			extra = append(extra, world.DrawSpec(t, exps))
		}
		key := rapid.IntRange(0, 20).Draw(t, "key")
		kind := rapid.SampledFrom([]string{"mem", "memprefix", "mem", "level"}).Draw(t, "storage")
		for n, more := 1, true; more; n++ {
			for mode := 0; mode < 4; mode++ {
				box := faultdb.NewBox(kind, []byte("iden:"))
				plan := &faultdb.Plan{}
				switch mode {
				case 0:
					plan.FailAt = n
				case 1:
					plan.FailAt, plan.FailFor = n, 1<<30
				case 2:
					plan.CrashBefore = n
				case 3:
					plan.CrashAfter = n
				}
				var x *world.Ident
				var ok bool
				var err error
				crashed := faultdb.Run(func() {
					x, ok, err = world.Create(chain, world.NewOff("record", 1), &faultdb.Storage{S: box.Storage(), P: plan}, cfg, key, extra)
				})
				fired := plan.Fired
				plan.Reset()
				if !fired && (err == nil) != ok {
					t.Fatalf("creating without a fault: %v", err)
				}
				more = more && fired
				if crashed {
					// the model of the same identity
					x, ok, err = world.Create(chain, world.NewOff("record", 1), db.NewMemoryStorage(), cfg, key, extra)
					if err != nil || !ok {
						box.Close()
						return
					}
					err = faultdb.ErrInjected
				}
				box.Reopen()
				x.Store = box.Storage()
				lerr := x.Load()
				if err == nil && lerr != nil {
					t.Fatalf("the identity was created (fault %d of mode %d: %v) but doesn't load: %v", n, mode, fired, lerr)
				}
				if err != nil && !crashed && lerr == nil {
					t.Fatalf("the identity was not created (fault %d of mode %d: %v) but loads", n, mode, err)
				}
				if lerr == nil {
					if err := x.CheckState(); err != nil {
						t.Fatalf("after fault %d of mode %d: %v", n, mode, err)
					}
					rec.LabelIf(crashed, "crash after everything")
					// it goes on as if nothing had happened
					c := world.Spec{Kind: "basic", I: 99}
					if _, _, err := x.Issue(c, c.Build()); err != nil {
						t.Fatalf("after fault %d of mode %d: %v", n, mode, err)
					}
				}
				box.Close()
			}
		}
		rec.Case(len(extra) > 0, "%+v extra %v on %s", cfg, extra, kind)
	})
}
