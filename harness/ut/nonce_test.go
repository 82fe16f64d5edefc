// Package ut checks the small packages the others and services build on.
package ut

import (
	"fmt"
	"sync"
	"testing"
	"time"

	noncedb "github.com/iden3/go-iden3-core/utils/noncedb"
	"pgregory.net/rapid"

	"verifharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

type nonce struct {
	delta int64
	at    [2]int64 // between which times it was added
	aux   interface{}
	maybe bool // may have been cleared, since it is expired
}

// old tells that it is expired whatever the clock did since.
func (n *nonce) old() bool { return n.delta < 0 }

// own makes what was given out the caller's.
func own(o *noncedb.NonceObj) {
	*o = noncedb.NonceObj{Nonce: "other", Expiration: 1, Aux: "other"}
}

// TestU01_History: a nonce is found until it is used or expires.
func TestU01_History(t *testing.T) {
	rec := vh.NewRec("U01_History", "histories of adding (expired or not), finding, using and clearing 1 to 6 nonces and adding data to them; non-trivial: a nonce was used and added again, or expired ones were cleared among others")
	vh.Check(t, 24000, 600000, func(t *rapid.T) {
		db := noncedb.NewNonceDb()
		names := rapid.IntRange(1, 6).Draw(t, "nonces")
		m := map[string]*nonce{}
		used := map[string]bool{}
		calls := 0 // of those that may clear
		var log []string
		again, cleared := false, false
		var fresh []string
		fatal := func(format string, a ...interface{}) {
			t.Fatalf("%s\nafter %v", fmt.Sprintf(format, a...), log)
		}
		expire := func() {
			// expired ones may be gone
			for _, n := range m {
				if n.old() {
					n.maybe = true
				}
			}
		}
		check := func(what, name string, o *noncedb.NonceObj, n *nonce) {
			if o == nil {
				fatal("%s gives no object", what)
			}
			if o.Nonce != name || o.Aux != n.aux || o.Expiration < n.at[0]+n.delta || o.Expiration > n.at[1]+n.delta {
				fatal("%s gives %+v, should be %s with %v, expiring %d after %v", what, *o, name, n.aux, n.delta, n.at)
			}
		}
		for steps := rapid.SampledFrom([]int{4, 10, 25, 60}).Draw(t, "steps"); steps > 0; steps-- {
			name := fmt.Sprint("n", rapid.IntRange(1, names).Draw(t, "nonce"))
			if len(fresh) > 0 && rapid.IntRange(0, 5).Draw(t, "fresh") == 0 {
				name = fresh[rapid.IntRange(0, len(fresh)-1).Draw(t, "which")]
			}
			n := m[name]
			op := rapid.SampledFrom([]string{"add", "add", "add", "new", "aux", "search", "search", "use", "use", "clear", "many"}).Draw(t, "op")
			log = append(log, op+" "+name)
			switch op {
			case "add", "new":
				delta := rapid.SampledFrom([]int64{-1 << 40, -3600, -60, -60, 60, 60, 3600, 90, 1 << 40}).Draw(t, "delta")
				var aux interface{}
				if rapid.Bool().Draw(t, "with data") {
					aux = rapid.IntRange(0, 3).Draw(t, "data")
				}
				log[len(log)-1] += fmt.Sprintf(" %d %v", delta, aux)
				before := time.Now().Unix()
				var o *noncedb.NonceObj
				if op == "new" {
					o = db.New(delta, aux)
					if o == nil {
						fatal("no new nonce")
					}
					name = o.Nonce
					if m[name] != nil || used[name] || len(name) < 34 {
						fatal("the new nonce %q is not new or not random", name)
					}
					n = nil
					fresh = append(fresh, name)
				} else {
					o = db.Add(name, delta, aux)
				}
				after := time.Now().Unix()
				if n != nil {
					if o == nil {
						break // it is there, or may be
					}
					if !n.maybe {
						if !n.old() {
							fatal("a nonce that is there is added again")
						}
					}
				}
				again = again || used[name]
				n = &nonce{delta: delta, at: [2]int64{before, after}, aux: aux}
				check("adding", name, o, n)
				own(o)
				m[name] = n
			case "aux":
				aux := rapid.SampledFrom([]interface{}{nil, 7, "x", 8.5}).Draw(t, "data")
				ok := db.AddAux(name, aux)
				switch {
				case n == nil && ok, n != nil && n.aux != nil && ok:
					fatal("data is added to a nonce that is not there or has some")
				case n != nil && !n.old() && n.aux == nil && !ok:
					fatal("data is not added to a nonce without")
				}
				if ok {
					n.aux = aux
				}
			case "search":
				calls++
				o, ok := db.Search(name)
				if ok != (n != nil && !n.old()) {
					fatal("searching: found %v", ok)
				}
				if ok {
					check("searching", name, o, n)
					own(o)
				}
				expire()
			case "use":
				calls++
				o, ok := db.SearchAndDelete(name)
				if ok != (n != nil && !n.old()) {
					fatal("using: found %v", ok)
				}
				if ok {
					check("using", name, o, n)
					own(o)
				}
				if n != nil {
					used[name] = true
				}
				delete(m, name)
				expire()
			case "clear", "many":
				if op == "clear" {
					db.DeleteOld()
				} else {
					for i := rapid.SampledFrom([]int{20, 130, 260}).Draw(t, "times"); i > 0; i-- {
						if _, ok := db.Search("not there"); ok {
							fatal("a nonce that was never added is found")
						}
						calls++
					}
				}
				expire()
				olds := 0
				for name, n := range m {
					if n.old() {
						olds++
						if op == "clear" {
							// so it is gone, and can be added
							delete(m, name)
							used[name] = true
						}
					}
				}
				cleared = cleared || olds > 0 && len(m) > 0
			}
		}
		for name, n := range m {
			if o, ok := db.Search(name); ok == n.old() {
				fatal("at the end %s is found: %v", name, ok)
			} else if ok {
				check("searching at the end", name, o, n)
			}
		}
		rec.LabelIf(again, "added again")
		rec.LabelIf(cleared, "cleared")
		rec.Case(again || cleared, "%v", log)
	})
}

// TestU01_Shared: of goroutines, one can use a nonce.
func TestU01_Shared(t *testing.T) {
	rec := vh.NewRec("U01_Shared", "2 to 8 goroutines add, find, use and add data to the same nonces, and clear; non-trivial: at least 2 of them use the same nonce")
	vh.Check(t, 1600, 40000, func(t *rapid.T) {
		db := noncedb.NewNonceDb()
		g := rapid.IntRange(2, 8).Draw(t, "goroutines")
		type op struct{ what, name string }
		plans := make([][]op, g)
		uses := map[string]int{}
		for i := range plans {
			mine := map[string]bool{}
			for n := rapid.IntRange(1, 12).Draw(t, "ops"); n > 0; n-- {
				o := op{rapid.SampledFrom([]string{"use", "use", "add", "aux", "search", "clear"}).Draw(t, "op"), fmt.Sprint("n", rapid.IntRange(1, 4).Draw(t, "nonce"))}
				if o.what == "use" {
					mine[o.name] = true
				}
				plans[i] = append(plans[i], o)
			}
			for k := range mine {
				uses[k]++
			}
		}
		var mu sync.Mutex
		adds, dels, auxs := map[string]int{}, map[string]int{}, map[string]int{}
		for i := 1; i <= 4; i++ {
			db.Add(fmt.Sprint("n", i), 1000, nil)
			db.Add(fmt.Sprint("old", i), -1000, nil)
			adds[fmt.Sprint("n", i)]++
		}
		bad := ""
		count := func(m map[string]int, name string) {
			mu.Lock()
			m[name]++
			mu.Unlock()
		}
		vh.Within("goroutines at a nonce db", func() {
			var wg sync.WaitGroup
			for _, p := range plans {
				wg.Add(1)
				go func(p []op) {
					defer wg.Done()
					for _, o := range p {
						switch o.what {
						case "use":
							if n, ok := db.SearchAndDelete(o.name); ok {
								count(dels, o.name)
								if n.Aux != nil {
									count(auxs, o.name+" seen")
								}
							}
						case "add":
							if n := db.Add(o.name, 2000, nil); n != nil {
								count(adds, o.name)
								if n.Aux != nil {
									mu.Lock()
									bad = fmt.Sprintf("added %+v", *n)
									mu.Unlock()
								}
								n.Aux, n.Expiration = 6, 0
							}
						case "aux":
							if db.AddAux(o.name, 5) {
								count(auxs, o.name)
							}
						case "search":
							if n, ok := db.Search(o.name); ok && (n.Nonce != o.name || n.Aux != nil && n.Aux != 5) {
								mu.Lock()
								bad = fmt.Sprintf("found %+v for %s", *n, o.name)
								mu.Unlock()
							}
						case "clear":
							db.DeleteOld()
						}
					}
				}(p)
			}
			wg.Wait()
		})
		if bad != "" {
			t.Fatalf("%s", bad)
		}
		most := 0
		for i := 1; i <= 4; i++ {
			name := fmt.Sprint("n", i)
			n, ok := db.Search(name)
			left := 0
			if ok {
				left = 1
			}
			if adds[name] != dels[name]+left {
				t.Fatalf("%s was added %d times, used %d times, and %d are left, by %v", name, adds[name], dels[name], left, plans)
			}
			seen := auxs[name+" seen"]
			if ok && n.Aux != nil {
				seen++
			}
			if auxs[name] != seen {
				t.Fatalf("data was added to %s %d times but seen %d times, by %v", name, auxs[name], seen, plans)
			}
			if uses[name] > most {
				most = uses[name]
			}
		}
		rec.Case(most > 1, "%v", plans)
	})
}

// TestU01_Expiry: nonces expire by the clock.
func TestU01_Expiry(t *testing.T) {
	rec := vh.NewRec("U01_Expiry", "nonces that expire in 1 to 3 seconds are waited for; non-trivial: all")
	vh.Check(t, 16, 80, func(t *rapid.T) {
		db := noncedb.NewNonceDb()
		ds := rapid.SliceOfN(rapid.Int64Range(1, 3), 1, 20).Draw(t, "deltas")
		use := rapid.Bool().Draw(t, "use")
		start := time.Now()
		for i, d := range ds {
			db.Add(fmt.Sprint(i), d, i)
		}
		added := time.Now()
		wait := rapid.SampledFrom([]int{0, 2, 3, 5}).Draw(t, "wait")
		time.Sleep(time.Duration(wait) * time.Second)
		if rapid.Bool().Draw(t, "clear") {
			db.DeleteOld()
		}
		for i, d := range ds {
			before := time.Now().Unix()
			var ok bool
			if use {
				_, ok = db.SearchAndDelete(fmt.Sprint(i))
			} else {
				_, ok = db.Search(fmt.Sprint(i))
			}
			after := time.Now().Unix()
			// the last second may count or not
			if after < start.Unix()+d && !ok {
				t.Fatalf("a nonce for %d s, added at %v, is gone at %d", d, start, after)
			}
			if before > added.Unix()+d+1 && ok {
				t.Fatalf("a nonce for %d s, added at %v, is still there at %d", d, added, before)
			}
		}
		rec.Case(true, "%v, after %d s, use %v", ds, wait, use)
	})
}

// TestU01_Second: within one second of the clock a nonce is valid or not,
// whatever asks for it.
func TestU01_Second(t *testing.T) {
	rec := vh.NewRec("U01_Second", "nonces that expire before, within or after the second of the clock are asked for in different ways within that second, with the same outcome; non-trivial: one of each outcome and the second did not pass meanwhile")
	vh.Check(t, 4000, 60000, func(t *rapid.T) {
		type q struct {
			d   int64
			ops []string
		}
		qs := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) q {
			return q{rapid.Int64Range(-2, 2).Draw(t, "delta"), rapid.SliceOfN(rapid.SampledFrom([]string{"search", "clear", "many"}), 0, 4).Draw(t, "ops")}
		}), 1, 5).Draw(t, "nonces")
		db := noncedb.NewNonceDb()
		second := time.Now().Unix()
		type outcome struct {
			op string
			ok bool
		}
		res := make([][]outcome, len(qs))
		for i, x := range qs {
			db.Add(fmt.Sprint(i), x.d, i)
		}
		for i, x := range qs {
			n := fmt.Sprint(i)
			for _, op := range x.ops {
				switch op {
				case "search":
					_, ok := db.Search(n)
					res[i] = append(res[i], outcome{op, ok})
				case "clear":
					db.DeleteOld()
				case "many":
					for j := 0; j < 130; j++ {
						db.Search("none")
					}
				}
			}
			_, ok := db.SearchAndDelete(n)
			res[i] = append(res[i], outcome{"use", ok})
		}
		same := time.Now().Unix() == second
		yes, no := false, false
		for i := range qs {
			if !same {
				break
			}
			for _, o := range res[i] {
				yes, no = yes || o.ok, no || !o.ok
				if o.ok != res[i][0].ok {
					t.Fatalf("within one second, a nonce that expires in %d s is valid for one and not for the other: %+v after %v", qs[i].d, res[i], qs[i].ops)
				}
				if qs[i].d > 0 && !o.ok || qs[i].d < 0 && o.ok {
					t.Fatalf("a nonce that expires in %d s: %+v", qs[i].d, o)
				}
			}
		}
		rec.Case(yes && no && same, "%v", qs)
	})
}
