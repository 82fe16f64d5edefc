package dbt

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/iden3/go-iden3-core/db"
	"pgregory.net/rapid"

	"verifharness/faultdb"
	"verifharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// model is the whole key space.
type model map[string]string

func (m model) clone() model {
	c := model{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (m model) under(prefix string) []db.KV {
	var ks []string
	for k := range m {
		if strings.HasPrefix(k, prefix) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var r []db.KV
	for _, k := range ks {
		r = append(r, db.KV{K: []byte(k[len(prefix):]), V: []byte(m[k])})
	}
	return r
}

func sameKVs(a, b []db.KV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i].K, b[i].K) || !bytes.Equal(a[i].V, b[i].V) {
			return false
		}
	}
	return true
}

func show(kvs []db.KV) string {
	s := ""
	for _, kv := range kvs {
		s += fmt.Sprintf("%x=%x ", kv.K, kv.V)
	}
	return s
}

var prefixes = []string{"", "a", "ab", "b", "\xff", "\xff\xff", "a\x00", "tree:"}
var keys = []string{"", "a", "b", "ab", "ba", "\x00", "\xff", "k1", "k2", "k10", "b\xff", "\xff\xffz"}

func drawKey(t *rapid.T) []byte {
	if rapid.IntRange(0, 3).Draw(t, "fixedkey") > 0 {
		return []byte(rapid.SampledFrom(keys).Draw(t, "key"))
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "rawkey")
}

// scribble overwrites buffers that belong to the caller.
func scribble(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] ^= 0x55
		}
	}
}

func drawVal(t *rapid.T) []byte {
	return rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "val")
}

type liveTx struct {
	tx     db.Tx
	prefix string
	w      model // pending writes, full keys
}

// TestD01_Model: both storages are the same ordered map with transactions.
func TestD01_Model(t *testing.T) {
	rec := vh.NewRec("D01_Model", "histories of interleaved transactions under overlapping prefixes (put, read, merge, commit, drop), reads, listings, iterations that stop, fail or write, and reopenings, on the in-memory and the on-disk storage against an ordered map; non-trivial: two transactions were open at once and at least one commit and one listing happened")
	vh.Check(t, 4000, 120000, func(t *rapid.T) {
		b := faultdb.NewBox(rapid.SampledFrom([]string{"mem", "mem", "memprefix", "level"}).Draw(t, "storage"), []byte("root/"))
		defer b.Close()
		base := ""
		if b.Kind == "memprefix" {
			base = "root/"
		}
		m := model{}
		var txs []*liveTx
		overlap, commits, lists := false, 0, 0
		descr := b.Kind + ":"
		// storages stay in use, and several are made from the same one
		kept := map[string]db.Storage{}
		sto := func(p string) db.Storage {
			if p == "" {
				return b.Storage()
			}
			if s, ok := kept[p]; ok && rapid.IntRange(0, 3).Draw(t, "kept") > 0 {
				return s
			}
			s := b.Storage()
			rest := []byte(p)
			// a prefix may be given in one or two steps
			if len(p) > 1 && rapid.Bool().Draw(t, "nested") {
				k, ok := kept[p[:1]]
				if !ok {
					k = s.WithPrefix([]byte(p[:1]))
					kept[p[:1]] = k
				}
				s, rest = k, rest[1:]
			}
			s = s.WithPrefix(rest)
			scribble(rest)
			kept[p] = s
			return s
		}
		pick := func(t *rapid.T) *liveTx {
			if len(txs) == 0 {
				t.Skip("no open transaction")
			}
			return txs[rapid.IntRange(0, len(txs)-1).Draw(t, "tx")]
		}
		drop := func(x *liveTx) {
			for i := range txs {
				if txs[i] == x {
					txs = append(txs[:i], txs[i+1:]...)
					return
				}
			}
		}
		checkGet := func(what string, get func([]byte) ([]byte, error), k []byte, want string, ok bool) {
			v, err := get(k)
			defer scribble(k, v)
			if ok && (err != nil || string(v) != want) {
				t.Fatalf("%s: get %x = %x, %v; want %x", what, k, v, err, want)
			}
			if !ok && err != db.ErrNotFound {
				t.Fatalf("%s: get of the absent key %x = %x, %v; want ErrNotFound", what, k, v, err)
			}
		}
		t.Repeat(map[string]func(*rapid.T){
			"begin": func(t *rapid.T) {
				if len(txs) >= 4 {
					t.Skip("enough")
				}
				p := rapid.SampledFrom(prefixes).Draw(t, "prefix")
				tx, err := sto(p).NewTx()
				if err != nil {
					t.Fatalf("begin: %v", err)
				}
				txs = append(txs, &liveTx{tx, base + p, model{}})
				overlap = overlap || len(txs) > 1
			},
			"put": func(t *rapid.T) {
				x := pick(t)
				k, v := drawKey(t), drawVal(t)
				x.tx.Put(k, v)
				x.w[x.prefix+string(k)] = string(v)
				defer scribble(k, v)
				descr += fmt.Sprintf("p%x=%x ", x.prefix+string(k), v)
			},
			"txget": func(t *rapid.T) {
				x := pick(t)
				k := drawKey(t)
				want, ok := x.w[x.prefix+string(k)]
				if !ok {
					want, ok = m[x.prefix+string(k)]
				}
				checkGet("transaction", x.tx.Get, k, want, ok)
			},
			"merge": func(t *rapid.T) {
				x, y := pick(t), pick(t)
				if x == y {
					return
				}
				x.tx.Add(y.tx)
				for k, v := range y.w {
					x.w[k] = v
				}
				descr += "M "
			},
			"commit": func(t *rapid.T) {
				x := pick(t)
				if err := x.tx.Commit(); err != nil {
					t.Fatalf("commit: %v", err)
				}
				for k, v := range x.w {
					m[k] = v
				}
				drop(x)
				commits++
				descr += "C "
			},
			"close": func(t *rapid.T) {
				x := pick(t)
				x.tx.Close()
				drop(x)
				descr += "X "
			},
			"get": func(t *rapid.T) {
				p := rapid.SampledFrom(prefixes).Draw(t, "prefix")
				k := drawKey(t)
				want, ok := m[base+p+string(k)]
				checkGet("storage", sto(p).Get, k, want, ok)
			},
			"list": func(t *rapid.T) {
				p := rapid.SampledFrom(prefixes).Draw(t, "prefix")
				n := rapid.IntRange(1, 8).Draw(t, "limit")
				if rapid.Bool().Draw(t, "all") {
					n = 1000
				}
				got, err := sto(p).List(n)
				want := m.under(base + p)
				if len(want) > n {
					want = want[:n]
				}
				defer func() {
					for _, kv := range got {
						scribble(kv.K, kv.V)
					}
				}()
				if err != nil || !sameKVs(got, want) {
					t.Fatalf("list(%d) under %q: %s, %v; want %s", n, p, show(got), err, show(want))
				}
				lists++
			},
			"iterate": func(t *rapid.T) {
				p := rapid.SampledFrom(prefixes).Draw(t, "prefix")
				want := m.under(base + p)
				stop := rapid.IntRange(0, len(want)+1).Draw(t, "stop")
				how := rapid.IntRange(0, 2).Draw(t, "how")
				boom := errors.New("boom")
				var got []db.KV
				defer func() {
					for _, kv := range got {
						scribble(kv.K, kv.V)
					}
				}()
				err := sto(p).Iterate(func(k, v []byte) (bool, error) {
					// what is given is the caller's
					got = append(got, db.KV{K: k, V: v})
					if how == 2 && len(got) == 1 {
						// a write during an iteration does not
						// show up in it
						w, err := b.Storage().NewTx()
						vh.Must(err)
						key := string(k) + "~new"
						w.Put([]byte(p+key), []byte("n"))
						if err := w.Commit(); err != nil {
							t.Fatalf("commit during an iteration: %v", err)
						}
						m[base+p+key] = "n"
					}
					if len(got) == stop {
						if how == 1 {
							return true, boom
						}
						return false, nil
					}
					return true, nil
				})
				if stop > 0 && stop <= len(want) {
					want = want[:stop]
					if how == 1 && err != boom {
						t.Fatalf("iterate: the error of the callback became %v", err)
					}
				}
				if (how != 1 || stop == 0 || stop > len(want)) && err != nil {
					t.Fatalf("iterate: %v", err)
				}
				if !sameKVs(got, want) {
					t.Fatalf("iterate under %q: %s; want %s", p, show(got), show(want))
				}
				lists++
			},
			"reopen": func(t *rapid.T) {
				if b.Kind != "level" || rapid.IntRange(0, 2).Draw(t, "really") > 0 {
					t.Skip("stay")
				}
				// what is not committed is lost
				for _, x := range txs {
					x.tx.Close()
				}
				txs = nil
				b.Reopen()
				kept = map[string]db.Storage{}
				descr += "R "
			},
			"": func(t *rapid.T) {},
		})
		if b.Storage().Info() == "" {
			t.Fatalf("the storage does not describe itself")
		}
		for _, p := range prefixes {
			got, err := sto(p).List(100000)
			if err != nil || !sameKVs(got, m.under(base+p)) {
				t.Fatalf("at the end, under %q: %s, %v; want %s", p, show(got), err, show(m.under(base+p)))
			}
		}
		if b.Kind == "level" {
			b.Reopen()
			kept = nil
			got, err := b.Storage().List(100000)
			if err != nil || !sameKVs(got, m.under("")) {
				t.Fatalf("after reopening: %s, %v; want %s", show(got), err, show(m.under("")))
			}
		}
		rec.Label("storage %s", b.Kind)
		rec.LabelIf(overlap, "overlapping transactions")
		rec.Case(overlap && commits > 0 && lists > 0, "%s", descr)
	})
}

func copyDir(src, dst string) {
	vh.Must(os.MkdirAll(dst, 0700))
	es, err := os.ReadDir(src)
	vh.Must(err)
	for _, e := range es {
		in, err := os.Open(filepath.Join(src, e.Name()))
		vh.Must(err)
		out, err := os.Create(filepath.Join(dst, e.Name()))
		vh.Must(err)
		_, err = io.Copy(out, in)
		vh.Must(err)
		in.Close()
		out.Close()
	}
}

// TestD01_CrashPrefix: whatever part of the log a crash leaves behind, the
// on-disk storage comes back with all of the first n transactions and nothing
// of the others; without damage n is all of them.
func TestD01_CrashPrefix(t *testing.T) {
	rec := vh.NewRec("D01_CrashPrefix", "histories of multi-key commits; a crash image is the files without closing the database, with the log cut at a generated byte; the content found must be that after some number of whole commits; non-trivial: at least two commits of two keys each")
	vh.Check(t, 400, 8000, func(t *rapid.T) {
		dir, err := os.MkdirTemp("", "vhcrash")
		vh.Must(err)
		defer os.RemoveAll(dir)
		live := filepath.Join(dir, "live")
		s, err := db.NewLevelDbStorage(live, false)
		vh.Must(err)
		defer s.Close()
		m := model{}
		states := []model{m.clone()}
		n := rapid.IntRange(1, 8).Draw(t, "commits")
		multi := 0
		for i := 0; i < n; i++ {
			p := rapid.SampledFrom(prefixes).Draw(t, "prefix")
			tx, err := s.WithPrefix([]byte(p)).NewTx()
			if err != nil {
				t.Fatalf("begin: %v", err)
			}
			ks := rapid.SliceOfNDistinct(rapid.SampledFrom(keys), 1, 6, rapid.ID[string]).Draw(t, "keys")
			for j := rapid.SampledFrom([]int{0, 0, 0, 0, 60, 250, 1200}).Draw(t, "more keys"); j > 0; j-- {
				ks = append(ks, fmt.Sprintf("more%d", j))
			}
			if len(ks) > 1 {
				multi++
			}
			for _, k := range ks {
				// every commit changes every key it touches
				v := fmt.Sprintf("%d/%x", i, drawVal(t))
				tx.Put([]byte(k), []byte(v))
				m[p+k] = v
			}
			if err := tx.Commit(); err != nil {
				t.Fatalf("commit: %v", err)
			}
			states = append(states, m.clone())
		}
		image := filepath.Join(dir, "image")
		copyDir(live, image)
		logs, _ := filepath.Glob(filepath.Join(image, "*.log"))
		sort.Strings(logs)
		cut := int64(-1)
		if len(logs) > 0 && rapid.IntRange(0, 4).Draw(t, "cutlog") > 0 {
			l := logs[len(logs)-1]
			st, err := os.Stat(l)
			vh.Must(err)
			cut = int64(rapid.IntRange(0, int(st.Size())).Draw(t, "cut"))
			if cut == st.Size() {
				cut = -1
			} else {
				vh.Must(os.Truncate(l, cut))
			}
		}
		r, err := db.NewLevelDbStorage(image, true)
		if err != nil {
			t.Fatalf("the storage does not open after a crash (log cut at %d): %v", cut, err)
		}
		defer r.Close()
		got, err := r.List(100000)
		if err != nil {
			t.Fatalf("list: %v", err)
		}
		found := -1
		for i := len(states) - 1; i >= 0; i-- {
			if sameKVs(got, states[i].under("")) {
				found = i
				break
			}
		}
		if found < 0 {
			t.Fatalf("after a crash (log cut at %d) the content is that of no whole number of commits: %s", cut, show(got))
		}
		if cut < 0 && found != len(states)-1 {
			t.Fatalf("after a crash without damage only %d of %d commits are found", found, len(states)-1)
		}
		rec.LabelIf(cut >= 0, "log cut")
		rec.LabelIf(found < len(states)-1, "commits lost with the cut")
		rec.Case(multi >= 2, "%d commits %s cut %d", n, show(m.under("")), cut)
	})
}

// TestD01_Merge: adding a transaction to another is writing its writes after
// those that are there.
func TestD01_Merge(t *testing.T) {
	rec := vh.NewRec("D01_Merge", "two or three transactions with the same few keys, added to each other in some order, read before and after a commit; non-trivial: two that are added to each other write the same key")
	vh.Check(t, 1600, 30000, func(t *rapid.T) {
		b := faultdb.NewBox(rapid.SampledFrom([]string{"mem", "memprefix", "level", "level"}).Draw(t, "storage"), []byte("pp"))
		defer b.Close()
		s := b.Storage()
		p := rapid.SampledFrom([]string{"", "", "t:"}).Draw(t, "prefix")
		m := model{}
		small := []string{"a", "b", "c"}
		same := false
		descr := b.Kind
		for round := rapid.IntRange(1, 3).Draw(t, "rounds"); round > 0; round-- {
			txs := make([]*liveTx, rapid.IntRange(2, 3).Draw(t, "transactions"))
			for i := range txs {
				st, pre := s, ""
				if i == 0 && p != "" {
					st, pre = s.WithPrefix([]byte(p)), p
				}
				tx, err := st.NewTx()
				if err != nil {
					t.Fatalf("begin: %v", err)
				}
				defer tx.Close()
				txs[i] = &liveTx{tx, pre, model{}}
			}
			for n := rapid.IntRange(2, 10).Draw(t, "steps"); n > 0; n-- {
				i := rapid.IntRange(0, len(txs)-1).Draw(t, "tx")
				x := txs[i]
				if rapid.IntRange(0, 2).Draw(t, "merge") > 0 {
					k, v := rapid.SampledFrom(small).Draw(t, "key"), drawVal(t)
					if rapid.IntRange(0, 3).Draw(t, "with the prefix") == 0 && x.prefix == "" {
						k = p + k
					}
					x.tx.Put([]byte(k), v)
					x.w[x.prefix+k] = string(v)
					descr += fmt.Sprintf(" %d:%s=%x", i, x.prefix+k, v)
				} else {
					j := (i + rapid.IntRange(1, len(txs)-1).Draw(t, "other")) % len(txs)
					x.tx.Add(txs[j].tx)
					for k, v := range txs[j].w {
						if _, ok := x.w[k]; ok {
							same = true
						}
						x.w[k] = v
					}
					descr += fmt.Sprintf(" %d+=%d", i, j)
				}
				for _, k := range small {
					want, ok := x.w[x.prefix+k]
					if !ok {
						want, ok = m[x.prefix+k]
					}
					v, err := x.tx.Get([]byte(k))
					if ok && (err != nil || string(v) != want) || !ok && err != db.ErrNotFound {
						t.Fatalf("transaction %d has %x, %v for %s; want %x, %v after %s", i, v, err, k, want, ok, descr)
					}
				}
			}
			x := txs[rapid.IntRange(0, len(txs)-1).Draw(t, "commit")]
			if err := x.tx.Commit(); err != nil {
				t.Fatalf("commit: %v", err)
			}
			for k, v := range x.w {
				m[k] = v
			}
			descr += " C"
			got, err := s.List(1000)
			if err != nil || !sameKVs(got, m.under("")) {
				t.Fatalf("%s is stored, %v; want %s after %s", show(got), err, show(m.under("")), descr)
			}
		}
		rec.Case(same, "%s", descr)
	})
}

// TestD01_Together: what is committed together becomes visible together.
func TestD01_Together(t *testing.T) {
	rec := vh.NewRec("D01_Together", "one goroutine commits the same number to several keys again and again while others list them; every listing has to show one number; non-trivial: at least 3 keys")
	vh.Check(t, 160, 3000, func(t *rapid.T) {
		b := faultdb.NewBox(rapid.SampledFrom([]string{"mem", "level"}).Draw(t, "storage"), nil)
		defer b.Close()
		s := b.Storage()
		nk := rapid.IntRange(2, 12).Draw(t, "keys")
		rounds := rapid.IntRange(20, 120).Draw(t, "rounds")
		readers := rapid.IntRange(1, 3).Draw(t, "readers")
		write := func(i int) error {
			tx, err := s.NewTx()
			if err != nil {
				return err
			}
			for k := 0; k < nk; k++ {
				tx.Put([]byte(fmt.Sprintf("k%02d", k)), []byte(fmt.Sprintf("%06d", i)))
			}
			return tx.Commit()
		}
		if err := write(0); err != nil {
			t.Fatalf("commit: %v", err)
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		errs := make(chan string, readers+1)
		for r := 0; r < readers; r++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				last := ""
				for {
					kvs, err := s.List(1000)
					if err != nil || len(kvs) != nk {
						errs <- fmt.Sprintf("list: %d keys, %v", len(kvs), err)
						return
					}
					for _, kv := range kvs {
						if !bytes.Equal(kv.V, kvs[0].V) {
							errs <- "a listing shows half of a commit: " + show(kvs)
							return
						}
					}
					if v := string(kvs[0].V); v < last {
						errs <- fmt.Sprintf("a listing goes back from %s to %s", last, v)
						return
					} else {
						last = v
					}
					select {
					case <-stop:
						return
					default:
					}
				}
			}()
		}
		for i := 1; i <= rounds; i++ {
			if err := write(i); err != nil {
				t.Fatalf("commit: %v", err)
			}
		}
		close(stop)
		wg.Wait()
		select {
		case e := <-errs:
			t.Fatalf("%s", e)
		default:
		}
		rec.Label("storage %s", b.Kind)
		rec.Case(nk >= 3, "%s %d keys %d rounds %d readers", b.Kind, nk, rounds, readers)
	})
}

// rawTails are the last bytes of the keys that a storage has: keys that end in
// them would meet those, if the kinds of keys were not kept apart.
func rawTails(s db.Storage) (r []string) {
	kvs, err := s.List(40)
	vh.Must(err)
	for _, kv := range kvs {
		for n := 1; n <= 12 && n <= len(kv.K); n++ {
			r = append(r, string(kv.K[len(kv.K)-n:]))
		}
	}
	return r
}

type item struct {
	N int
	S string
	B []byte
}

// TestD02_Lists: stored counters, lists and JSON values behave like variables,
// slices and maps.
func TestD02_Lists(t *testing.T) {
	rec := vh.NewRec("D02_Lists", "histories on several stored lists, counters and JSON values in one storage, in transactions that are committed or dropped, with reopenings, against plain Go values; list prefixes with spare capacity and prefixes of each other; non-trivial: two lists with at least two items each")
	vh.Check(t, 3000, 100000, func(t *rapid.T) {
		b := faultdb.NewBox(rapid.SampledFrom([]string{"mem", "memprefix", "mem", "level"}).Draw(t, "storage"), []byte("pp"))
		defer b.Close()
		type list struct {
			sl   *db.StorageList
			keys []string
			vals map[string]item
			// stale is how long the list once was, before it was initialised again
			stale int
		}
		clone := func(l list) list {
			c := list{sl: l.sl, stale: l.stale, keys: append([]string(nil), l.keys...), vals: map[string]item{}}
			for k, v := range l.vals {
				c.vals[k] = v
			}
			return c
		}
		names := []string{"states:", "other:", "st"}
		lists := make([]list, len(names))
		tx, err := b.Storage().NewTx()
		vh.Must(err)
		for i, n := range names {
			p := make([]byte, len(n), len(n)+rapid.IntRange(0, 32).Draw(t, "spare"))
			copy(p, n)
			lists[i] = list{sl: db.NewStorageList(p), vals: map[string]item{}}
			if string(p) != n {
				t.Fatalf("the prefix of the caller changed")
			}
			lists[i].sl.Init(tx)
		}
		vals := []*db.StorageValue{db.NewStorageValue([]byte("nonce")), db.NewStorageValue([]byte("nonce2"))}
		cur := []uint32{0, 0}
		for _, v := range vals {
			v.Set(tx, 0)
		}
		if err := tx.Commit(); err != nil {
			t.Fatalf("commit: %v", err)
		}
		tx = nil
		var js map[string]item = map[string]item{}
		saved := struct {
			lists []list
			cur   []uint32
			js    map[string]item
		}{}
		save := func() {
			saved.lists = nil
			for _, l := range lists {
				saved.lists = append(saved.lists, clone(l))
			}
			saved.cur = append([]uint32(nil), cur...)
			saved.js = map[string]item{}
			for k, v := range js {
				saved.js[k] = v
			}
		}
		save()
		begin := func() {
			if tx == nil {
				var err error
				if tx, err = b.Storage().NewTx(); err != nil {
					t.Fatalf("begin: %v", err)
				}
			}
		}
		descr := b.Kind
		eq := func(a, b item) bool { return a.N == b.N && a.S == b.S && bytes.Equal(a.B, b.B) }
		drawItem := func(t *rapid.T) item {
			return item{rapid.Int().Draw(t, "n"), rapid.String().Draw(t, "s"), rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "b")}
		}
		t.Repeat(map[string]func(*rapid.T){
			"append": func(t *rapid.T) {
				begin()
				l := &lists[rapid.IntRange(0, len(lists)-1).Draw(t, "list")]
				k := rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "key")
				if rapid.Bool().Draw(t, "nastykey") {
					k = []byte(rapid.SampledFrom([]string{"len", "list:", "byidx:", "a", "\x00\x00\x00\x00"}).Draw(t, "nk"))
				}
				if tail := rawTails(b.Storage()); len(tail) > 0 && rapid.IntRange(0, 2).Draw(t, "like a stored key") == 0 {
					k = []byte(tail[rapid.IntRange(0, len(tail)-1).Draw(t, "tail")])
				}
				it := drawItem(t)
				if err := l.sl.Append(tx, k, it); err != nil {
					t.Fatalf("append: %v", err)
				}
				l.keys = append(l.keys, string(k))
				// read it back as JSON text does
				it.S = jsonString(it.S)
				l.vals[string(k)] = it
				descr += fmt.Sprintf(" +%x", k)
			},
			"reinit": func(t *rapid.T) {
				begin()
				i := rapid.IntRange(0, len(lists)-1).Draw(t, "list")
				if rapid.IntRange(0, 3).Draw(t, "rarely") != 0 {
					t.Skip("rarely")
				}
				l := &lists[i]
				l.sl.Init(tx)
				if len(l.keys) > l.stale {
					l.stale = len(l.keys)
				}
				l.keys = nil
				descr += fmt.Sprintf(" I%d", i)
			},
			"set": func(t *rapid.T) {
				begin()
				i := rapid.IntRange(0, 1).Draw(t, "which")
				v := rapid.Uint32().Draw(t, "v")
				vals[i].Set(tx, v)
				cur[i] = v
			},
			"json": func(t *rapid.T) {
				begin()
				k := rapid.SampledFrom([]string{"config", "config2", "x"}).Draw(t, "k")
				it := drawItem(t)
				if err := db.StoreJSON(tx, []byte(k), it); err != nil {
					t.Fatalf("store: %v", err)
				}
				it.S = jsonString(it.S)
				js[k] = it
			},
			"commit": func(t *rapid.T) {
				if tx == nil {
					t.Skip("none")
				}
				if err := tx.Commit(); err != nil {
					t.Fatalf("commit: %v", err)
				}
				tx = nil
				save()
				descr += " C"
			},
			"drop": func(t *rapid.T) {
				if tx == nil {
					t.Skip("none")
				}
				tx.Close()
				tx = nil
				lists, cur, js = saved.lists, saved.cur, saved.js
				save()
				descr += " X"
			},
			"reopen": func(t *rapid.T) {
				if tx != nil {
					t.Skip("in a transaction")
				}
				b.Reopen()
			},
			"": func(t *rapid.T) {
				rtx := tx
				if rtx == nil {
					var err error
					if rtx, err = b.Storage().NewTx(); err != nil {
						t.Fatalf("begin: %v", err)
					}
				}
				for i := range lists {
					l := &lists[i]
					n, err := l.sl.Length(rtx)
					if err != nil || int(n) != len(l.keys) {
						t.Fatalf("list %q has length %d, %v; want %d", names[i], n, err, len(l.keys))
					}
					for j, k := range l.keys {
						var it item
						got, err := l.sl.GetByIdx(rtx, uint32(j), &it)
						if err != nil || string(got) != k || !eq(it, l.vals[k]) {
							t.Fatalf("list %q[%d] = %x %v, %v; want %x %v", names[i], j, got, it, err, k, l.vals[k])
						}
					}
					for k, v := range l.vals {
						var it item
						if err := l.sl.Get(rtx, []byte(k), &it); err != nil || !eq(it, v) {
							t.Fatalf("list %q of %x = %v, %v; want %v", names[i], k, it, err, v)
						}
					}
					var it item
					if _, err := l.sl.GetByIdx(rtx, uint32(len(l.keys)), &it); err == nil && len(l.keys) >= l.stale {
						t.Fatalf("list %q has an item past its end", names[i])
					}
					if _, ok := l.vals["absent"]; !ok {
						if err := l.sl.Get(rtx, []byte("absent"), &it); err == nil {
							t.Fatalf("list %q has an absent key", names[i])
						}
					}
				}
				for i := range vals {
					v, err := vals[i].Get(rtx)
					if err != nil || v != cur[i] {
						t.Fatalf("value %d = %d, %v; want %d", i, v, err, cur[i])
					}
				}
				for k, v := range saved.js {
					var it item
					if err := db.LoadJSON(b.Storage(), []byte(k), &it); err != nil || !eq(it, v) {
						t.Fatalf("JSON %q = %v, %v; want %v", k, it, err, v)
					}
				}
			},
		})
		big := 0
		for _, l := range lists {
			if len(l.keys) >= 2 {
				big++
			}
		}
		rec.Label("storage %s", b.Kind)
		rec.Case(big >= 2, "%s", descr)
	})
}

// TestD02_Long: lists and counters go on far past the first byte of an index.
func TestD02_Long(t *testing.T) {
	rec := vh.NewRec("D02_Long", "two stored lists that grow in turns to lengths around 2^8 and 2^16 in transactions of several sizes, read back by index and by key; non-trivial: a list has more than 256 items")
	vh.Check(t, 48, 400, func(t *rapid.T) {
		b := faultdb.NewBox(rapid.SampledFrom([]string{"mem", "memprefix", "level"}).Draw(t, "storage"), []byte("pp"))
		defer b.Close()
		lens := []int{10, 255, 256, 257, 300, 700, 2000}
		if rapid.IntRange(0, 11).Draw(t, "very long") == 0 && b.Kind != "level" {
			lens = []int{65535, 65536, 65537, 66000}
		}
		type list struct {
			sl  *db.StorageList
			n   int
			key int
		}
		key := func(l *list, i int) []byte { return []byte(fmt.Sprintf("%x", i*l.key)) }
		ls := []*list{
			{db.NewStorageList([]byte("a:")), rapid.SampledFrom(lens).Draw(t, "a"), 1},
			{db.NewStorageList([]byte("b:")), rapid.SampledFrom([]int{3, 257, 600}).Draw(t, "b"), 7},
		}
		batch := rapid.SampledFrom([]int{1, 100, 255, 5000}).Draw(t, "batch")
		if ls[0].n > 60000 {
			batch = 20000
		}
		tx, err := b.Storage().NewTx()
		vh.Must(err)
		for _, l := range ls {
			l.sl.Init(tx)
		}
		for i := 0; i < ls[0].n || i < ls[1].n; i++ {
			if i%batch == batch-1 {
				if err := tx.Commit(); err != nil {
					t.Fatalf("commit: %v", err)
				}
				tx, err = b.Storage().NewTx()
				vh.Must(err)
			}
			for _, l := range ls {
				if i < l.n {
					if err := l.sl.Append(tx, key(l, i), i); err != nil {
						t.Fatalf("append of item %d: %v", i, err)
					}
				}
			}
		}
		if err := tx.Commit(); err != nil {
			t.Fatalf("commit: %v", err)
		}
		b.Reopen()
		tx, err = b.Storage().NewTx()
		vh.Must(err)
		for _, l := range ls {
			n, err := l.sl.Length(tx)
			if err != nil || int(n) != l.n {
				t.Fatalf("the list has length %d, %v; want %d", n, err, l.n)
			}
			for i := 0; i < l.n; i++ {
				if l.n > 60000 && i > 600 && i < 65000 && i%97 != 0 {
					continue
				}
				var v, w int
				k, err := l.sl.GetByIdx(tx, uint32(i), &v)
				if err != nil || v != i || !bytes.Equal(k, key(l, i)) {
					t.Fatalf("item %d of %d is %q %d, %v", i, l.n, k, v, err)
				}
				if err := l.sl.Get(tx, k, &w); err != nil || w != i {
					t.Fatalf("item %q is %d, %v; want %d", k, w, err, i)
				}
			}
			var v int
			if k, err := l.sl.GetByIdx(tx, uint32(l.n), &v); err == nil {
				t.Fatalf("there is an item %q past the end", k)
			}
		}
		rec.Label("storage %s", b.Kind)
		rec.LabelIf(ls[0].n > 65536, "more than 65536 items")
		rec.Case(ls[0].n > 256 || ls[1].n > 256, "%s %d %d by %d", b.Kind, ls[0].n, ls[1].n, batch)
	})
}

func jsonString(s string) string {
	b, err := json.Marshal(s)
	vh.Must(err)
	var r string
	vh.Must(json.Unmarshal(b, &r))
	return r
}
