// Package ks checks the key store and the signatures.
package ks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"

	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"pgregory.net/rapid"

	"verifharness/vh"
)

func TestMain(m *testing.M) {
	signal.Ignore(syscall.SIGXFSZ)
	vh.Main(m)
}

// scratch is a directory for the test, in memory if possible: the key store
// waits for the disk at every write.
func scratch(t *testing.T) string {
	dir, err := os.MkdirTemp("/dev/shm", "vh-ks-")
	if err != nil {
		return t.TempDir()
	}
	t.Cleanup(func() { _ = os.RemoveAll(dir) })
	return dir
}

func drawParams(t *rapid.T) keystore.KeyStoreParams {
	return keystore.KeyStoreParams{ScryptN: rapid.SampledFrom([]int{2, 2, 2, 4, 16}).Draw(t, "N"), ScryptP: rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "P")}
}

func drawPass(t *rapid.T) []byte {
	return []byte(rapid.SampledFrom([]string{"", "a", "b", "ab", "pass", "pass ", "Pass", "pass\x00", "a long pass phrase that has more than sixty-four bytes, to be hashed first"}).Draw(t, "pass"))
}

// equivalent tells whether two passwords are the same key for HMAC, that pads
// with zeros and hashes long ones.
func equivalent(a, b []byte) bool {
	return bytes.Equal(bytes.TrimRight(a, "\x00"), bytes.TrimRight(b, "\x00"))
}

// TestK01_Encryption: what is encrypted comes back with its password only.
func TestK01_Encryption(t *testing.T) {
	rec := vh.NewRec("K01_Encryption", "data of 0 to 100 bytes is encrypted, kept as JSON, and decrypted with its password, other ones, and with one part altered; non-trivial: a wrong password or an altered part")
	vh.Check(t, 4000, 100000, func(t *rapid.T) {
		data := rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "data")
		pass := drawPass(t)
		p := drawParams(t)
		d, w := append([]byte(nil), data...), append([]byte(nil), pass...)
		e, err := keystore.EncryptData(d, w, p.ScryptN, p.ScryptP)
		if err != nil {
			t.Fatalf("encrypting: %v", err)
		}
		if !bytes.Equal(d, data) || !bytes.Equal(w, pass) {
			t.Fatalf("encrypting changed what it got")
		}
		if len(data) >= 8 && bytes.Contains(e.EncryptedData, data) {
			t.Fatalf("the data is not encrypted")
		}
		e2, err := keystore.EncryptData(d, w, p.ScryptN, p.ScryptP)
		if err != nil || bytes.Equal(e.Salt, e2.Salt) || bytes.Equal(e.Nonce, e2.Nonce) || bytes.Equal(e.EncryptedData, e2.EncryptedData) {
			t.Fatalf("two encryptions share the salt, the nonce or the result")
		}
		js, err := json.Marshal(e)
		if err != nil {
			t.Fatalf("writing: %v", err)
		}
		var r keystore.EncryptedData
		if err := json.Unmarshal(js, &r); err != nil {
			t.Fatalf("reading: %v", err)
		}
		got, err := keystore.DecryptData(&r, pass)
		if err != nil || !bytes.Equal(got, data) {
			t.Fatalf("decrypting: %x (%v), want %x", got, err, data)
		}
		kind := rapid.SampledFrom([]string{"pass", "data", "salt", "nonce", "N", "P", "cut", "empty", "bad N", "bad P"}).Draw(t, "kind")
		what := pass
		flip := func(b []byte) {
			b[rapid.IntRange(0, len(b)-1).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		}
		switch kind {
		case "pass":
			what = drawPass(t)
			if equivalent(what, pass) {
				what = append(append([]byte(nil), pass...), 'x')
			}
		case "data":
			flip(r.EncryptedData)
		case "salt":
			flip(r.Salt)
		case "nonce":
			flip(r.Nonce)
		case "N":
			r.ScryptN *= 2
		case "P":
			r.ScryptP++
		case "cut":
			r.EncryptedData = r.EncryptedData[:rapid.IntRange(0, len(r.EncryptedData)-1).Draw(t, "length")]
		case "empty":
			switch rapid.IntRange(0, 2).Draw(t, "which") {
			case 0:
				r.Salt = nil
			case 1:
				r.Nonce = nil
			default:
				r = keystore.EncryptedData{}
			}
		case "bad N":
			r.ScryptN = rapid.SampledFrom([]int{0, 1, -1, 3, -1 << 62}).Draw(t, "N")
		case "bad P":
			r.ScryptP = rapid.SampledFrom([]int{0, -1, -1 << 62, 1 << 40}).Draw(t, "P")
		}
		if got, err := keystore.DecryptData(&r, what); err == nil {
			t.Fatalf("decrypting with a wrong %s: %x", kind, got)
		}
		rec.Label("%s", kind)
		rec.Case(true, "%d bytes, pass %q, %+v, wrong %s: %+v", len(data), pass, p, kind, r)
	})
}

// faulty is a storage whose writes and reads can fail.
type faulty struct {
	keystore.Storage
	fail     bool
	failRead bool
}

func (f *faulty) Read() ([]byte, error) {
	if f.failRead {
		return nil, errRead
	}
	return f.Storage.Read()
}

var errRead = errors.New("injected read fault")

var errWrite = errors.New("injected write fault")

func (f *faulty) Write(b []byte) error {
	if f.fail {
		return errWrite
	}
	return f.Storage.Write(b)
}

type key struct {
	sk   babyjub.PrivateKey
	pass []byte
	open bool
}

func limit(n uint64, f func()) {
	var old syscall.Rlimit
	vh.Must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	vh.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}))
	defer func() { vh.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}

// TestK01_History: a key store keeps the keys it was given.
func TestK01_History(t *testing.T) {
	rec := vh.NewRec("K01_History", "histories of making, importing, unlocking, exporting keys, signing, closing and reopening a key store in memory or in a file, with failing writes and a full disk; non-trivial: a key was used after a reopening or a failed write")
	base := scratch(t)
	n := 0
	vh.Check(t, 2400, 60000, func(t *rapid.T) {
		n++
		dir := filepath.Join(base, fmt.Sprint(n))
		vh.Must(os.Mkdir(dir, 0700))
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "keys.json")
		file := rapid.Bool().Draw(t, "file")
		if file && rapid.IntRange(0, 4).Draw(t, "link") == 0 {
			vh.Must(os.Mkdir(filepath.Join(dir, "real"), 0700))
			vh.Must(os.WriteFile(filepath.Join(dir, "real", "k"), nil, 0600))
			vh.Must(os.Symlink(filepath.Join("real", "k"), path))
		}
		mem := keystore.MemStorage{}
		storage := func() keystore.Storage {
			if file {
				return keystore.NewFileStorage(path)
			}
			return &mem
		}
		params := drawParams(t)
		st := &faulty{Storage: storage()}
		ks, err := keystore.NewKeyStore(st, params)
		if err != nil {
			t.Fatalf("new: %v", err)
		}
		defer func() { _ = ks.Close() }()
		keys := map[babyjub.PublicKeyComp]*key{}
		var order []babyjub.PublicKeyComp
		var log []string
		reopened, failed, used := false, false, false
		fatal := func(format string, a ...interface{}) {
			t.Fatalf("%s\nafter %v", fmt.Sprintf(format, a...), log)
		}
		checkKeys := func() {
			got := map[babyjub.PublicKeyComp]bool{}
			ks := ks.Keys()
			for _, k := range ks {
				got[k] = true
				if keys[k] == nil {
					fatal("there is the key %v that was not added", k)
				}
			}
			if len(got) != len(keys) || len(ks) != len(keys) {
				fatal("the keys are %v, should be %d", ks, len(keys))
			}
		}
		add := func(pk *babyjub.PublicKeyComp, sk *babyjub.PrivateKey, pass []byte) {
			k := keys[*pk]
			if k == nil {
				k = &key{}
				keys[*pk] = k
				order = append(order, *pk)
			}
			if sk != nil {
				k.sk = *sk
			} else {
				k.sk = babyjub.PrivateKey{}
			}
			k.pass = append([]byte(nil), pass...)
		}
		pick := func() babyjub.PublicKeyComp {
			if len(order) == 0 || rapid.IntRange(0, 9).Draw(t, "unknown") == 0 {
				sk := babyjub.PrivateKey{0: 0xff, 5: rapid.Byte().Draw(t, "sk")}
				return sk.Public().Compress()
			}
			return order[rapid.IntRange(0, len(order)-1).Draw(t, "which")]
		}
		use := func(pk babyjub.PublicKeyComp) {
			k := keys[pk]
			open := k != nil && k.open
			msg := rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "msg")
			sig, err := ks.SignRaw(&pk, msg)
			exp, err2 := ks.ExportKey(&pk)
			if !open {
				if err != keystore.ErrKeyNotInCache || err2 != keystore.ErrKeyNotInCache {
					fatal("signing and exporting with a key that is not unlocked: %v, %v", err, err2)
				}
				return
			}
			if err != nil || err2 != nil {
				fatal("signing and exporting: %v, %v", err, err2)
			}
			if k.sk == (babyjub.PrivateKey{}) {
				k.sk = *exp
			}
			if *exp != k.sk || exp.Public().Compress() != pk {
				fatal("the key exported is not the one of %v", pk)
			}
			if ok, err := keystore.VerifySignatureRaw(&pk, sig, msg); err != nil || !ok {
				fatal("a signature does not verify: %v", err)
			}
			used = used || reopened || failed
			// what is given out is the caller's
			for i := range exp {
				exp[i] = 0
			}
		}
		for steps := rapid.SampledFrom([]int{3, 8, 16, 24}).Draw(t, "steps"); steps > 0; steps-- {
			op := rapid.SampledFrom([]string{"new", "import", "import", "fail", "full", "unlock", "unlock", "unlock", "wrong", "use", "use", "reopen"}).Draw(t, "op")
			log = append(log, op)
			switch op {
			case "new":
				if rapid.IntRange(0, 3).Draw(t, "new key") != 0 {
					break
				}
				pass := drawPass(t)
				pk, err := ks.NewKey(pass)
				if err != nil {
					fatal("new key: %v", err)
				}
				if keys[*pk] != nil {
					fatal("a new key is an old one")
				}
				add(pk, nil, pass)
			case "import", "fail", "full":
				sk := babyjub.PrivateKey{0: rapid.ByteRange(0, 4).Draw(t, "sk"), 31: 1}
				pass := drawPass(t)
				want := sk.Public().Compress()
				var pk *babyjub.PublicKeyComp
				var err error
				bad := false
				switch {
				case op == "fail":
					st.fail, bad = true, true
					pk, err = ks.ImportKey(sk, pass)
					st.fail = false
				case op == "full" && file:
					// as many bytes as fit
					size := uint64(0)
					if b, err := os.ReadFile(path); err == nil {
						size = uint64(len(b))
					}
					most := rapid.SampledFrom([]uint64{0, 1, size / 2, size}).Draw(t, "fits")
					bad = true // a key more, or as many with another salt, of the same size
					if keys[want] != nil && most >= size {
						bad = false
					}
					limit(most, func() { pk, err = ks.ImportKey(sk, pass) })
					if !bad && err != nil {
						bad = true // numbers of another length
					}
				default:
					pk, err = ks.ImportKey(sk, pass)
				}
				if bad {
					if err == nil {
						fatal("importing a key that could not be written gives no error")
					}
					failed = true
					break
				}
				if err != nil || *pk != want {
					fatal("importing: %v (%v), want %v", pk, err, want)
				}
				add(pk, &sk, pass)
				for i := range sk {
					sk[i] = 0
				}
				log[len(log)-1] += fmt.Sprintf("(%q)", pass)
				for i := range pass {
					pass[i] = 'z'
				}
			case "unlock", "wrong":
				pk := pick()
				k := keys[pk]
				pass := drawPass(t)
				if op == "unlock" && k != nil {
					pass = k.pass
				}
				err := ks.UnlockKey(&pk, pass)
				switch {
				case k == nil && err != keystore.ErrKeyNotFound:
					fatal("unlocking an unknown key: %v", err)
				case k == nil:
				case equivalent(k.pass, pass) && err != nil:
					fatal("unlocking with the password %q: %v", pass, err)
				case !equivalent(k.pass, pass) && err == nil:
					fatal("unlocking with the password %q, not %q, is accepted", pass, k.pass)
				case err == nil:
					k.open = true
				}
			case "use":
				use(pick())
			case "reopen":
				old := ks
				if err := ks.Close(); err != nil {
					fatal("closing: %v", err)
				}
				for _, pk := range order {
					pk := pk
					if keys[pk].open {
						if _, err := old.SignRaw(&pk, []byte("x")); err == nil {
							fatal("a closed key store signs")
						}
						if sk, err := old.ExportKey(&pk); err == nil {
							fatal("a closed key store exports the key %x", sk[:])
						}
					}
					keys[pk].open = false
				}
				// before and after its storage has a new owner, a closed key store unlocks and imports nothing
				dead := func(when string) {
					if len(order) > 0 {
						pk := order[len(order)-1]
						if err := old.UnlockKey(&pk, keys[pk].pass); err == nil {
							fatal("%s, a closed key store unlocks a key", when)
						}
						if _, err := old.SignRaw(&pk, []byte("x")); err == nil {
							fatal("%s, a closed key store signs", when)
						}
					}
					if _, err := old.ImportKey(babyjub.NewRandPrivKey(), []byte("late")); err == nil {
						fatal("%s, a closed key store imports a key", when)
					}
				}
				dead("closed")
				if rapid.Bool().Draw(t, "other object") {
					st = &faulty{Storage: storage()}
				}
				if rapid.IntRange(0, 2).Draw(t, "failing read") == 0 {
					// what can't be read is not taken for an empty key store
					if no, err := keystore.NewKeyStore(&faulty{Storage: storage(), failRead: true}, params); err == nil {
						_ = no.Close()
						fatal("a key store that can't be read is opened")
					}
				}
				ks, err = keystore.NewKeyStore(st, params)
				if err != nil {
					fatal("reopening: %v", err)
				}
				dead("reopened")
				if file {
					// the old one does not come back to life
					if rapid.Bool().Draw(t, "close again") {
						_ = old.Close()
					}
					other, err := keystore.NewKeyStore(keystore.NewFileStorage(path), params)
					if err != keystore.ErrStorageLock {
						if err == nil {
							_ = other.Close()
						}
						fatal("the file of an open key store is opened by another: %v", err)
					}
				}
				reopened = true
			}
			checkKeys()
		}
		// at the end, everything is still there
		_ = ks.Close()
		ks, err = keystore.NewKeyStore(&faulty{Storage: storage()}, keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1})
		if err != nil {
			fatal("reopening at the end: %v", err)
		}
		reopened = true
		checkKeys()
		for _, pk := range order {
			pk := pk
			keys[pk].open = false
			if err := ks.UnlockKey(&pk, keys[pk].pass); err != nil {
				fatal("unlocking at the end with the password %q: %v", keys[pk].pass, err)
			}
			keys[pk].open = true
			use(pk)
		}
		if file {
			es, err := os.ReadDir(dir)
			vh.Must(err)
			for _, e := range es {
				if i, err := e.Info(); err == nil && i.Mode().IsRegular() && i.Mode().Perm()&0077 != 0 {
					fatal("others can read the file %s", e.Name())
				}
				if !strings.HasPrefix(e.Name(), "keys.json") && e.Name() != "real" {
					fatal("there is a file %s", e.Name())
				}
				if e.Name() != "keys.json" && e.Name() != "keys.json.lock" && e.Name() != "real" {
					fatal("the file %s is left behind", e.Name())
				}
			}
		}
		var ns []string
		for _, k := range keys {
			ns = append(ns, fmt.Sprintf("%x:%q", k.sk[:1], k.pass))
		}
		sort.Strings(ns)
		rec.LabelIf(failed, "failed write")
		rec.LabelIf(file, "file")
		rec.Case(used && len(log) > 3, "file %v %+v %v keys %v", file, params, log, len(ns))
	})
}

// TestK01_Files: whatever a file holds, it is refused or used safely.
func TestK01_Files(t *testing.T) {
	rec := vh.NewRec("K01_Files", "files of key stores with keys exchanged, altered, cut or that are other JSON or no JSON; opened, and opened again after being put right; non-trivial: the file is not as it was written")
	base := scratch(t)
	path := filepath.Join(base, "k")
	vh.Check(t, 2000, 40000, func(t *rapid.T) {
		_ = os.Remove(path)
		params := keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}
		ks, err := keystore.NewKeyStore(keystore.NewFileStorage(path), params)
		if err != nil {
			t.Fatalf("new: %v", err)
		}
		var pks []babyjub.PublicKeyComp
		for i := rapid.IntRange(1, 3).Draw(t, "keys"); i > 0; i-- {
			pk, err := ks.ImportKey(babyjub.PrivateKey{0: byte(i), 9: 7}, []byte("p"))
			if err != nil {
				t.Fatalf("import: %v", err)
			}
			pks = append(pks, *pk)
		}
		if err := ks.Close(); err != nil {
			t.Fatalf("close: %v", err)
		}
		good, err := os.ReadFile(path)
		vh.Must(err)
		bad := append([]byte(nil), good...)
		kind := rapid.SampledFrom([]string{"same", "exchanged", "renamed", "flipped", "cut", "null", "other", "empty"}).Draw(t, "kind")
		switch kind {
		case "exchanged":
			m := map[string]json.RawMessage{}
			vh.Must(json.Unmarshal(bad, &m))
			a, b := pks[0].String(), pks[len(pks)-1].String()
			m[a], m[b] = m[b], m[a]
			bad, _ = json.Marshal(m)
		case "renamed":
			other := babyjub.PrivateKey{3: 3}
			pk := other.Public().Compress()
			bad = bytes.Replace(bad, []byte(pks[0].String()), []byte(pk.String()), 1)
			pks = append(pks, pk)
		case "flipped":
			// numbers of the cost stay small
			i := rapid.IntRange(0, len(bad)-1).Draw(t, "byte")
			c := rapid.SampledFrom([]byte(`0a"{}:,f-nN`)).Draw(t, "char")
			if !(bad[i] >= '0' && bad[i] <= '9') || c < '0' || c > '9' {
				bad[i] = c
			}
		case "cut":
			bad = bad[:rapid.IntRange(0, len(bad)-1).Draw(t, "length")]
		case "null":
			bad = []byte("null")
		case "other":
			bad = []byte(rapid.SampledFrom([]string{`[]`, `{}`, `{"a":{}}`, `{"00":null}`, `"x"`, `1`, ` `, "\x00", `{"` + pks[0].String() + `":null}`, `{"` + pks[0].String() + `":{}}`, `{"` + pks[0].String() + `":{"ScryptN":2}}`}).Draw(t, "text"))
		case "empty":
			bad = nil
		}
		vh.Must(os.WriteFile(path, bad, 0600))
		what := fmt.Sprintf("file %q", bad)
		if msg := vh.Catch(func() {
			ks, err = keystore.NewKeyStore(keystore.NewFileStorage(path), params)
		}); msg != "" {
			t.Fatalf("%s: opening crashed: %s", what, msg)
		}
		if kind == "same" && err != nil {
			t.Fatalf("opening: %v", err)
		}
		if err == nil {
			use := func() string {
				for _, pk := range append(ks.Keys(), pks...) {
					pk := pk
					uerr := ks.UnlockKey(&pk, []byte("p"))
					if kind == "same" && uerr != nil {
						return fmt.Sprintf("unlocking: %v", uerr)
					}
					if uerr != nil {
						continue
					}
					sk, err := ks.ExportKey(&pk)
					if err != nil || sk.Public().Compress() != pk {
						return fmt.Sprintf("unlocking %v gives the key of another (%v)", pk, err)
					}
				}
				if _, err := ks.ImportKey(babyjub.PrivateKey{9: 1}, []byte("p")); err != nil {
					return fmt.Sprintf("importing: %v", err)
				}
				return ""
			}
			wrong := ""
			if msg := vh.Catch(func() { wrong = use() }); msg != "" {
				t.Fatalf("%s: crashed: %s", what, msg)
			}
			if wrong != "" {
				t.Fatalf("%s: %s", what, wrong)
			}
			if err := ks.Close(); err != nil {
				t.Fatalf("closing: %v", err)
			}
		}
		// put right, it opens: nothing holds it
		vh.Must(os.WriteFile(path, good, 0600))
		ks, err = keystore.NewKeyStore(keystore.NewFileStorage(path), params)
		if err != nil {
			t.Fatalf("%s: afterwards the good file does not open: %v", what, err)
		}
		_ = ks.Close()
		rec.Label("%s", kind)
		rec.Case(kind != "same", "%s %q", kind, bad)
	})
}

// TestK01_Storage: a storage gives back what was written to it.
func TestK01_Storage(t *testing.T) {
	rec := vh.NewRec("K01_Storage", "storages written and read, locked and unlocked, the caller reusing the buffers, and writes that do not fit on the disk; non-trivial: 2 writes")
	path := filepath.Join(scratch(t), "s")
	vh.Check(t, 1500, 30000, func(t *rapid.T) {
		_ = os.Remove(path)
		file := rapid.Bool().Draw(t, "file")
		var s keystore.Storage = &keystore.MemStorage{}
		if file {
			s = keystore.NewFileStorage(path)
		}
		locked := false
		var want []byte
		writes := 0
		var log []string
		for n := rapid.IntRange(2, 12).Draw(t, "steps"); n > 0; n-- {
			op := rapid.SampledFrom([]string{"lock", "lock", "write", "write", "full", "read", "unlock"}).Draw(t, "op")
			log = append(log, op)
			switch op {
			case "lock":
				if ok, err := s.TryLock(); err != nil || !ok {
					t.Fatalf("locking: %v %v after %v", ok, err, log)
				}
				locked = true
			case "unlock":
				if err := s.Unlock(); locked && err != nil {
					t.Fatalf("unlocking: %v after %v", err, log)
				}
				locked = false
			case "write", "full":
				b := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "data")
				in := append([]byte(nil), b...)
				if op == "full" && file {
					if len(in) == 0 || !locked {
						break
					}
					most := uint64(rapid.IntRange(0, len(in)-1).Draw(t, "fits"))
					var err error
					limit(most, func() { err = s.Write(in) })
					if err == nil {
						t.Fatalf("writing %d bytes where %d fit gives no error", len(in), most)
					}
					break
				}
				err := s.Write(in)
				if file && !locked {
					if err != keystore.ErrStorageUnlocked {
						t.Fatalf("writing to a storage that is not locked: %v", err)
					}
					break
				}
				if err != nil {
					t.Fatalf("writing: %v", err)
				}
				want = b
				writes++
				for i := range in {
					in[i] ^= 0xff
				}
			case "read":
				got, err := s.Read()
				if file && !locked {
					if err != keystore.ErrStorageUnlocked {
						t.Fatalf("reading from a storage that is not locked: %v", err)
					}
					break
				}
				if file && writes == 0 {
					if !os.IsNotExist(err) {
						t.Fatalf("reading what was not written: %v", err)
					}
					break
				}
				if err != nil || !bytes.Equal(got, want) {
					t.Fatalf("reading: %x (%v), want %x\nafter %v", got, err, want, log)
				}
				for i := range got {
					got[i] ^= 0xff
				}
			}
		}
		_ = s.Unlock()
		rec.Case(writes > 1, "file %v %v %x", file, log, want)
	})
}

// TestK03_Lock: a file has one owner at a time.
func TestK03_Lock(t *testing.T) {
	rec := vh.NewRec("K03_Lock", "histories of 2 to 4 storages of one file that are locked and unlocked, also by goroutines; non-trivial: a lock is refused")
	base := scratch(t)
	n := 0
	vh.Check(t, 1200, 30000, func(t *rapid.T) {
		n++
		path := filepath.Join(base, fmt.Sprint(n))
		m := rapid.IntRange(2, 4).Draw(t, "storages")
		ss := make([]*keystore.FileStorage, m)
		for i := range ss {
			ss[i] = keystore.NewFileStorage(path)
		}
		owner := -1
		refused := 0
		var log []string
		for steps := rapid.SampledFrom([]int{3, 8, 16}).Draw(t, "steps"); steps > 0; steps-- {
			i := rapid.IntRange(0, m-1).Draw(t, "who")
			switch rapid.SampledFrom([]string{"lock", "lock", "unlock"}).Draw(t, "op") {
			case "lock":
				log = append(log, fmt.Sprintf("lock %d", i))
				ok, err := ss[i].TryLock()
				if err != nil {
					t.Fatalf("locking: %v after %v", err, log)
				}
				if ok != (owner == -1 || owner == i) {
					t.Fatalf("locking gives %v, the owner is %d, after %v", ok, owner, log)
				}
				if ok {
					owner = i
				} else {
					refused++
				}
			case "unlock":
				log = append(log, fmt.Sprintf("unlock %d", i))
				if err := ss[i].Unlock(); err != nil && owner == i {
					t.Fatalf("unlocking: %v after %v", err, log)
				}
				if owner == i {
					owner = -1
				}
			}
		}
		rec.Case(refused > 0, "%d storages %v", m, log)
		runtime.KeepAlive(ss)
		for i := range ss {
			_ = ss[i].Unlock()
		}
		_ = os.Remove(path + ".lock")
	})
}

// TestK03_Owners: of goroutines with a storage each, one owns the file.
func TestK03_Owners(t *testing.T) {
	rec := vh.NewRec("K03_Owners", "2 to 6 goroutines with storages of one file lock it, add to a counter in it and unlock it; non-trivial: all of them got it")
	base := scratch(t)
	n := 0
	vh.Check(t, 64, 800, func(t *rapid.T) {
		n++
		path := filepath.Join(base, fmt.Sprint(n))
		g := rapid.IntRange(2, 6).Draw(t, "goroutines")
		times := rapid.SampledFrom([]int{20, 50, 100}).Draw(t, "times")
		keep := rapid.Bool().Draw(t, "same object")
		var in, twice, got int64
		var wg sync.WaitGroup
		all := int64(0)
		errs := make(chan error, g)
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				s := keystore.NewFileStorage(path)
				mine := false
				for j := 0; j < times; {
					if !keep {
						s = keystore.NewFileStorage(path)
					}
					ok, err := s.TryLock()
					if err != nil {
						errs <- err
						return
					}
					if !ok {
						runtime.Gosched()
						continue
					}
					j++
					if atomic.AddInt64(&in, 1) != 1 {
						atomic.AddInt64(&twice, 1)
					}
					mine = true
					atomic.AddInt64(&got, 1)
					runtime.Gosched()
					atomic.AddInt64(&in, -1)
					if err := s.Unlock(); err != nil {
						errs <- err
						return
					}
				}
				if mine {
					atomic.AddInt64(&all, 1)
				}
			}()
		}
		vh.Within("goroutines with storages of one file", wg.Wait)
		if twice > 0 {
			t.Fatalf("the file had two owners %d times (%d goroutines, %d times, same object %v)", twice, g, times, keep)
		}
		select {
		case err := <-errs:
			t.Fatalf("locking or unlocking: %v", err)
		default:
		}
		rec.Case(all == int64(g), "%d goroutines %d times, same object %v", g, times, keep)
	})
}

// TestK03_Shared: goroutines share a key store.
func TestK03_Shared(t *testing.T) {
	rec := vh.NewRec("K03_Shared", "2 to 4 goroutines import, unlock, list, export and sign with one key store, which one of them may close; non-trivial: 2 keys imported")
	vh.Check(t, 400, 8000, func(t *rapid.T) {
		mem := &keystore.MemStorage{}
		params := keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}
		ks, err := keystore.NewKeyStore(mem, params)
		vh.Must(err)
		g := rapid.IntRange(2, 4).Draw(t, "goroutines")
		type op struct {
			what string
			key  byte
		}
		plans := make([][]op, g)
		closes := false
		for i := range plans {
			for j := rapid.IntRange(2, 7).Draw(t, "ops"); j > 0; j-- {
				o := op{rapid.SampledFrom([]string{"import", "import", "unlock", "unlock", "sign", "sign", "export", "keys"}).Draw(t, "op"), rapid.ByteRange(0, 2).Draw(t, "key")}
				plans[i] = append(plans[i], o)
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "close") == 0 {
			closes = true
			i := rapid.IntRange(0, g-1).Draw(t, "who")
			j := rapid.IntRange(0, len(plans[i])-1).Draw(t, "when")
			plans[i][j].what = "close"
		}
		var mu sync.Mutex
		imported := map[byte]bool{}
		var closing int32
		bad := make(chan string, g)
		run := func(plan []op) string {
			mine := map[byte]bool{}
			for _, o := range plan {
				sk := babyjub.PrivateKey{0: o.key, 1: 9}
				pk := sk.Public().Compress()
				switch o.what {
				case "import":
					got, err := ks.ImportKey(sk, []byte("p"))
					if err != nil && atomic.LoadInt32(&closing) != 0 {
						break
					}
					if err != nil || *got != pk {
						return fmt.Sprintf("import: %v", err)
					}
					mu.Lock()
					imported[o.key] = true
					mu.Unlock()
				case "unlock":
					mu.Lock()
					was := imported[o.key]
					mu.Unlock()
					err := ks.UnlockKey(&pk, []byte("p"))
					if err != nil && atomic.LoadInt32(&closing) != 0 {
						break
					}
					if err != nil && (was || err != keystore.ErrKeyNotFound) {
						return fmt.Sprintf("unlock: %v", err)
					}
					mine[o.key] = mine[o.key] || err == nil
				case "sign":
					sig, err := ks.SignRaw(&pk, []byte{o.key})
					if err != nil && (err != keystore.ErrKeyNotInCache || mine[o.key] && !closes) {
						return fmt.Sprintf("sign: %v", err)
					}
					if err == nil {
						if ok, err := keystore.VerifySignatureRaw(&pk, sig, []byte{o.key}); err != nil || !ok {
							return fmt.Sprintf("a signature does not verify: %v", err)
						}
					}
				case "export":
					e, err := ks.ExportKey(&pk)
					if err != nil && (err != keystore.ErrKeyNotInCache || mine[o.key] && !closes) {
						return fmt.Sprintf("export: %v", err)
					}
					if err == nil {
						if *e != sk {
							return fmt.Sprintf("exported %x, not %x", e[:], sk[:])
						}
						*e = babyjub.PrivateKey{}
					}
				case "keys":
					_ = ks.Keys()
				case "close":
					atomic.StoreInt32(&closing, 1)
					if err := ks.Close(); err != nil {
						return fmt.Sprintf("close: %v", err)
					}
				}
			}
			return ""
		}
		vh.Within("goroutines at a key store", func() {
			var wg sync.WaitGroup
			for i := range plans {
				wg.Add(1)
				go func(p []op) {
					defer wg.Done()
					var m string
					if c := vh.Catch(func() { m = run(p) }); c != "" {
						m = c
					}
					if m != "" {
						bad <- m
					}
				}(plans[i])
			}
			wg.Wait()
		})
		select {
		case m := <-bad:
			t.Fatalf("%s\nof %v", m, plans)
		default:
		}
		// all of it was written
		re, err := keystore.NewKeyStore(mem, params)
		if err != nil {
			t.Fatalf("reopening: %v", err)
		}
		if len(re.Keys()) != len(imported) {
			t.Fatalf("%d keys were written, not %d, by %v", len(re.Keys()), len(imported), plans)
		}
		for k := range imported {
			sk := babyjub.PrivateKey{0: k, 1: 9}
			pk := sk.Public().Compress()
			if err := re.UnlockKey(&pk, []byte("p")); err != nil {
				t.Fatalf("unlocking after reopening: %v", err)
			}
		}
		rec.Case(len(imported) > 1, "%v", plans)
	})
}
