package ut

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/iden3/go-circom-prover-verifier/parsers"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"verifharness/toyzk"
	"verifharness/vh"
)

// contents of the three files: good ones of two circuits.
var (
	once     sync.Once
	contents [2]map[string][]byte
)

func load() {
	once.Do(func() {
		logrus.SetOutput(io.Discard)
		for i := range contents {
			dir, err := os.MkdirTemp("", "vh-zk-")
			vh.Must(err)
			c := toyzk.Circuit{Public: []toyzk.Signal{{Name: "id", N: 1}, {Name: "old", N: 2}}, Salt: int64(i) + 40}
			c.Write(dir)
			contents[i] = map[string][]byte{}
			for _, n := range []string{"proving_key.json", "proving_key.go.bin", "verification_key.json", "circuit.wasm"} {
				contents[i][n], err = os.ReadFile(filepath.Join(dir, n))
				vh.Must(err)
			}
			_ = os.RemoveAll(dir)
		}
		// the wasm is the same for both: make it another
		contents[1]["circuit.wasm"] = append([]byte("another "), contents[0]["circuit.wasm"]...)
	})
}

func hashOf(b []byte) string {
	h := sha256.Sum256(b)
	return hexOf(h[:])
}

// content of a kind for a file.
func content(kind, name string) []byte {
	switch kind {
	case "good":
		return contents[0][name]
	case "other":
		return contents[1][name]
	case "altered":
		b := append([]byte(nil), contents[0][name]...)
		b[len(b)/2] ^= 1
		return b
	case "junk":
		return bytes.Repeat([]byte{'x'}, len(contents[0][name]))
	case "cut":
		return contents[0][name][:len(contents[0][name])-1]
	case "empty":
		return []byte{}
	}
	panic(kind)
}

var kinds = []string{"good", "good", "good", "other", "altered", "junk", "cut", "empty"}

// faulty: the answer is none.
func faulty(a string) bool {
	switch a {
	case "404", "500", "300", "304", "399", "hang up", "too short", "break":
		return true
	}
	return false
}

// server answers by file.
type server struct {
	mu     sync.Mutex
	answer map[string]string // by file: a kind of content, or a fault
	asked  map[string]int
	live   map[string]int
	twice  string
	plan   func(name string, n int) (answer string, wait time.Duration)
	ts     *httptest.Server
}

func newServer() *server {
	s := &server{live: map[string]int{}}
	s.reset()
	s.ts = httptest.NewServer(s)
	return s
}

func (s *server) reset() {
	s.answer, s.asked, s.twice, s.plan = map[string]string{}, map[string]int{}, "", nil
}

func (s *server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	name := strings.TrimPrefix(r.URL.Path, "/zk/files/")
	s.mu.Lock()
	ans := s.answer[name]
	n := s.asked[name]
	s.asked[name]++
	plan := s.plan
	s.live[name]++
	if s.live[name] > 1 {
		s.twice = name
	}
	s.mu.Unlock()
	// done comes before the end of the answer, so that it is not seen before
	var once sync.Once
	done := func() {
		once.Do(func() {
			s.mu.Lock()
			s.live[name]--
			s.mu.Unlock()
		})
	}
	defer done()
	wait := time.Duration(0)
	if plan != nil {
		ans, wait = plan(name, n)
	}
	if contents[0][name] == nil || r.Method != "GET" {
		ans = "404"
	}
	good := contents[0][name]
	switch ans {
	case "404", "500", "300", "304", "399":
		code, _ := strconv.Atoi(ans)
		time.Sleep(wait)
		w.WriteHeader(code)
		_, _ = w.Write(good) // still no good
	case "hang up":
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			_ = c.Close()
		}
	case "too short", "break":
		if ans == "too short" {
			w.Header().Set("Content-Length", fmt.Sprint(len(good)))
		}
		_, _ = w.Write(good[:len(good)/2])
		w.(http.Flusher).Flush()
		done()
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			_ = c.Close()
		}
	default:
		b := content(ans, name)
		w.Header().Set("Content-Length", fmt.Sprint(len(b)))
		_, _ = w.Write(b[:len(b)/2])
		if wait > 0 {
			w.(http.Flusher).Flush()
			time.Sleep(wait)
		}
		done()
		_, _ = w.Write(b[len(b)/2:])
	}
}

func vkBytes(vk *zktypes.Vk) []byte {
	var r []byte
	r = append(r, vk.Alpha.Marshal()...)
	r = append(r, vk.Beta.Marshal()...)
	r = append(r, vk.Gamma.Marshal()...)
	r = append(r, vk.Delta.Marshal()...)
	for _, p := range vk.IC {
		r = append(r, p.Marshal()...)
	}
	return r
}

// parsed is the content of a file in a form to compare, if it can be parsed.
func parsed(name string, b []byte) (r []byte, ok bool) {
	var pk *zktypes.Pk
	var err error
	m := vh.Catch(func() {
		switch name {
		case "circuit.wasm":
			r = b
		case "verification_key.json":
			var vk *zktypes.Vk
			if vk, err = parsers.ParseVk(b); err == nil {
				r = vkBytes(vk)
			}
		case "proving_key.json":
			if pk, err = parsers.ParsePk(b); err == nil {
				r, err = parsers.PkToGoBin(pk)
			}
		case "proving_key.go.bin":
			r = b
		}
	})
	return r, m == "" && err == nil
}

// TestU03_Files: what is used has the hash.
func TestU03_Files(t *testing.T) {
	load()
	rec := vh.NewRec("U03_Files", "sets of zk files in 2 formats in a directory with none, right, wrong and half downloaded ones, a server that gives right, wrong and no answers, hashes that fit or not, and up to 10 calls to load and use the files by two users; non-trivial: a download, and a wrong file or answer or a fault")
	srv := newServer()
	defer srv.ts.Close()
	base := t.TempDir()
	num := 0
	vh.Check(t, 3200, 80000, func(t *rapid.T) {
		num++
		dir := filepath.Join(base, fmt.Sprint(num), "deep", "er")
		defer os.RemoveAll(filepath.Join(base, fmt.Sprint(num)))
		srv.mu.Lock()
		srv.reset()
		srv.mu.Unlock()
		format := zkutils.ProvingKeyFormat(rapid.SampledFrom([]string{"json", "go.bin"}).Draw(t, "format"))
		names := []string{"proving_key." + string(format), "verification_key.json", "circuit.wasm"}
		var log []string
		want := map[string]string{} // kind by file, or "none" for a hash of nothing
		hash := map[string]string{}
		if rapid.Bool().Draw(t, "directory") {
			vh.Must(os.MkdirAll(dir, 0700))
		}
		trouble := false
		for _, n := range names {
			want[n] = rapid.SampledFrom([]string{"good", "good", "good", "good", "other", "none"}).Draw(t, "hash")
			if want[n] == "none" {
				h := hashOf(content("good", n))
				hash[n] = rapid.SampledFrom([]string{"", "zz", h[:62], h + "00", h[:63], strings.Repeat("0", 64), h[1:] + h[:1]}).Draw(t, "bad hash")
			} else {
				hash[n] = hashOf(content(want[n], n))
			}
			if _, err := os.Stat(dir); err == nil {
				if rapid.IntRange(0, 2).Draw(t, "local") == 0 {
					k := rapid.SampledFrom(kinds).Draw(t, "local content")
					vh.Must(os.WriteFile(filepath.Join(dir, n), content(k, n), 0600))
					log = append(log, fmt.Sprintf("[%s: %s]", n, k))
				}
				// what another process left when it was killed
				if rapid.IntRange(0, 3).Draw(t, "half") == 0 {
					b := content("good", n)
					vh.Must(os.WriteFile(filepath.Join(dir, n+".tmp"), append(append([]byte(nil), b...), b...)[:rapid.SampledFrom([]int{0, len(b) / 2, len(b) * 2}).Draw(t, "half size")], 0600))
					vh.Must(os.WriteFile(filepath.Join(dir, n+".tmp.lock"), nil, 0600))
				}
			}
		}
		hashes := zkutils.ZkFilesHashes{ProvingKey: hash[names[0]], VerificationKey: hash[names[1]], WitnessCalcWASM: hash[names[2]]}
		users := make([]*zkutils.ZkFiles, 2)
		cache := rapid.Bool().Draw(t, "cache")
		for i := range users {
			users[i] = zkutils.NewZkFiles(srv.ts.URL+"/zk/files", dir, format, hashes, cache)
		}
		ready := []map[string]bool{{}, {}} // were found good
		downloads := 0
		fatal := func(f string, a ...interface{}) {
			t.Fatalf("%s\nformat %s, hashes of %v, after %v", fmt.Sprintf(f, a...), format, want, log)
		}
		local := func(n string) ([]byte, bool) {
			b, err := os.ReadFile(filepath.Join(dir, n))
			return b, err == nil
		}
		for steps := rapid.SampledFrom([]int{2, 5, 10}).Draw(t, "steps"); steps > 0; steps-- {
			if rapid.IntRange(0, 4).Draw(t, "new users") == 0 {
				// others come, who know nothing of what was found before; in
				// between the files may have changed
				for _, n := range names {
					if _, err := os.Stat(dir); err != nil {
						break
					}
					k := rapid.SampledFrom([]string{"same", "same", "removed", "good", "other", "altered", "junk", "cut", "empty"}).Draw(t, "change")
					if k == "same" {
						continue
					}
					_ = os.Remove(filepath.Join(dir, n))
					if k != "removed" {
						vh.Must(os.WriteFile(filepath.Join(dir, n), content(k, n), 0600))
					}
					log = append(log, fmt.Sprintf("[%s: now %s]", n, k))
				}
				for i := range users {
					users[i] = zkutils.NewZkFiles(srv.ts.URL+"/zk/files", dir, format, hashes, cache)
				}
				ready = []map[string]bool{{}, {}}
				log = append(log, "new users")
			}
			// (a draw may stop the case, so none while the lock is held)
			answers := map[string]string{}
			for _, n := range names {
				answers[n] = rapid.SampledFrom([]string{"good", "good", "good", "other", "altered", "junk", "cut", "empty", "404", "500", "300", "304", "399", "hang up", "too short", "break"}).Draw(t, "answer")
			}
			srv.mu.Lock()
			srv.answer = answers
			srv.mu.Unlock()
			u := rapid.IntRange(0, 1).Draw(t, "user")
			z := users[u]
			op := rapid.SampledFrom([]string{"get pk", "get vk", "get wasm", "load pk", "load vk", "load wasm", "download pk", "download vk", "download wasm", "load all", "download all", "insecure", "hashes"}).Draw(t, "op")
			log = append(log, fmt.Sprintf("%d: %s (server: %v)", u, op, srv.answer))
			var files []string
			for i, s := range []string{"pk", "vk", "wasm"} {
				if strings.HasSuffix(op, s) || strings.HasSuffix(op, "all") || op == "insecure" || op == "hashes" {
					files = append(files, names[i])
				}
			}
			before := map[string][]byte{}
			had := map[string]bool{}
			for _, n := range names {
				before[n], had[n] = local(n)
			}
			var err error
			var got []byte
			var calc *zkutils.ZkFilesHashes
			if m := vh.Catch(func() {
				switch op {
				case "get pk":
					var pk *zktypes.Pk
					if pk, err = z.ProvingKey(); err == nil {
						got, err = parsers.PkToGoBin(pk)
						vh.Must(err)
					}
				case "get vk":
					var vk *zktypes.Vk
					if vk, err = z.VerificationKey(); err == nil {
						got = vkBytes(vk)
					}
				case "get wasm":
					got, err = z.WitnessCalcWASM()
					got = append([]byte{}, got...)
				case "load pk":
					err = z.LoadProvingKey()
				case "load vk":
					err = z.LoadVerificationKey()
				case "load wasm":
					err = z.LoadWitnessCalcWASM()
				case "download pk":
					err = z.DownloadProvingKey()
				case "download vk":
					err = z.DownloadVerificationKey()
				case "download wasm":
					err = z.DownloadWitnessCalcWASM()
				case "load all":
					err = z.LoadAll()
				case "download all":
					err = z.DownloadAll()
				case "insecure":
					err = z.InsecureDownloadAll()
				case "hashes":
					calc, err = z.InsecureCalcHashes()
				}
			}); m != "" {
				fatal("crashed: %s", m)
			}
			srv.mu.Lock()
			asked := srv.asked
			srv.asked = map[string]int{}
			srv.mu.Unlock()
			secure := op != "insecure" && op != "hashes"
			// should it have worked?
			should := true
			for _, n := range files {
				if !should {
					break // it stops at the first that fails
				}
				b, ok := before[n], had[n]
				if !ok && op != "hashes" {
					switch a := srv.answer[n]; a {
					case "404", "500", "300", "304", "399", "hang up", "too short", "break":
						trouble = true
					default:
						b, ok = content(a, n), true
						downloads++
					}
				}
				if ok && secure {
					ok = want[n] != "none" && bytes.Equal(b, content(want[n], n))
					trouble = trouble || !ok
				}
				if !ok && secure && ready[u][n] {
					// it was found good before: what is on the disk cannot have changed
					fatal("%s is no longer there or good", n)
				}
				should = ok
				if ok && secure {
					ready[u][n] = true
				}
			}
			if (err == nil) != should {
				fatal("the error is %v, should there be one: %v", err, !should)
			}
			if err == nil && got != nil {
				ref, ok := parsed(files[0], content(want[files[0]], files[0]))
				if !ok || !bytes.Equal(got, ref) {
					fatal("got a wrong %s of %d bytes", files[0], len(got))
				}
			}
			if err == nil && calc != nil {
				for i, h := range []string{calc.ProvingKey, calc.VerificationKey, calc.WitnessCalcWASM} {
					if h != hashOf(before[names[i]]) {
						fatal("the hash of %s is %s", names[i], h)
					}
				}
			}
			// what is on the disk
			for _, n := range names {
				b, ok := local(n)
				switch {
				case had[n] && (!ok || !bytes.Equal(b, before[n])):
					fatal("the file %s was changed", n)
				case had[n] && asked[n] > 0:
					fatal("%s is there but was downloaded", n)
				case !had[n] && ok:
					a := srv.answer[n]
					if op == "hashes" || asked[n] == 0 || faulty(a) || !bytes.Equal(b, content(a, n)) {
						fatal("the file %s has %d bytes, the server's answer is %s", n, len(b), a)
					}
				}
			}
		}
		rec.LabelIf(downloads > 0, "download")
		rec.LabelIf(trouble, "trouble")
		rec.Case(downloads > 0 && trouble, "%s %v %v", format, want, log)
	})
}

// TestU03_Shared: users of one directory do not get into each other's way.
func TestU03_Shared(t *testing.T) {
	load()
	rec := vh.NewRec("U03_Shared", "2 to 6 goroutines with a set of zk files of one directory each, or a shared one, load them at different times while the server is slow and fails at first; non-trivial: a download failed while another waited")
	srv := newServer()
	defer srv.ts.Close()
	base := t.TempDir()
	num := 0
	vh.Check(t, 48, 1000, func(t *rapid.T) {
		num++
		dir := filepath.Join(base, fmt.Sprint(num))
		defer os.RemoveAll(dir)
		g := rapid.IntRange(2, 6).Draw(t, "goroutines")
		starts := make([]time.Duration, g)
		for i := range starts {
			if i > 0 {
				starts[i] = time.Duration(rapid.SampledFrom([]int{0, 10, 50, 220, 260, 300}).Draw(t, "start")) * time.Millisecond
			}
		}
		fails := rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(t, "fails")
		fault := rapid.SampledFrom([]string{"500", "too short", "404"}).Draw(t, "fault")
		wait := time.Duration(rapid.SampledFrom([]int{20, 60, 150}).Draw(t, "wait")) * time.Millisecond
		shared := rapid.IntRange(0, 2).Draw(t, "shared") == 0
		which := rapid.SampledFrom([]string{"wasm", "all"}).Draw(t, "which")
		var mu sync.Mutex
		failed := map[string]int{}
		srv.mu.Lock()
		srv.reset()
		srv.plan = func(name string, n int) (string, time.Duration) {
			mu.Lock()
			defer mu.Unlock()
			if n < fails {
				failed[name]++
				return fault, 30 * time.Millisecond
			}
			return "good", wait
		}
		srv.mu.Unlock()
		name := "circuit.wasm"
		h := zkutils.ZkFilesHashes{ProvingKey: hashOf(content("good", "proving_key.go.bin")), VerificationKey: hashOf(content("good", "verification_key.json")), WitnessCalcWASM: hashOf(content("good", name))}
		one := zkutils.NewZkFiles(srv.ts.URL+"/zk/files", dir, zkutils.ProvingKeyFormatGoBin, h, true)
		errs := make([]error, g)
		datas := make([][]byte, g)
		vh.Within("goroutines with zk files", func() {
			var wg sync.WaitGroup
			for i := 0; i < g; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					time.Sleep(starts[i])
					z := one
					if !shared {
						z = zkutils.NewZkFiles(srv.ts.URL+"/zk/files", dir, zkutils.ProvingKeyFormatGoBin, h, true)
					}
					if which == "all" {
						if errs[i] = z.LoadAll(); errs[i] != nil {
							return
						}
					}
					datas[i], errs[i] = z.WitnessCalcWASM()
				}(i)
			}
			wg.Wait()
		})
		bad := 0
		for i := range errs {
			if errs[i] != nil {
				bad++
			} else if !bytes.Equal(datas[i], content("good", name)) {
				t.Fatalf("goroutine %d got wrong data", i)
			}
		}
		mu.Lock()
		most := 0
		for _, n := range failed {
			most += n
		}
		mu.Unlock()
		if bad > most {
			t.Fatalf("%d of %d failed (%v), the server only %d times", bad, g, errs, most)
		}
		srv.mu.Lock()
		twice := srv.twice
		for n, k := range srv.asked {
			if k > fails+1 {
				srv.mu.Unlock()
				t.Fatalf("%s was asked for %d times, only %d failed: it was downloaded when it was there", n, k, fails)
			}
		}
		srv.mu.Unlock()
		if twice != "" {
			t.Fatalf("%s was downloaded by two at a time", twice)
		}
		if bad < g {
			if b, err := os.ReadFile(filepath.Join(dir, name)); err != nil || !bytes.Equal(b, content("good", name)) {
				t.Fatalf("the file is wrong: %v", err)
			}
		}
		rec.LabelIf(shared, "shared")
		rec.Case(most > 0 && g > 2, "%d goroutines at %v, %d times %s, wait %v, shared %v, %s", g, starts, fails, fault, wait, shared, which)
	})
}

// TestU03_Print: the helper that prints the hashes of the files of a server.
func TestU03_Print(t *testing.T) {
	load()
	rec := vh.NewRec("U03_Print", "the helper that prints the hashes of what a server has, in 2 formats, with right, wrong and no answers; non-trivial: an answer is wrong or missing")
	srv := newServer()
	defer srv.ts.Close()
	base := t.TempDir()
	t.Setenv("TMPDIR", base)
	vh.Check(t, 240, 6000, func(t *rapid.T) {
		srv.mu.Lock()
		srv.reset()
		srv.mu.Unlock()
		format := zkutils.ProvingKeyFormat(rapid.SampledFrom([]string{"json", "go.bin"}).Draw(t, "format"))
		names := []string{"proving_key." + string(format), "verification_key.json", "circuit.wasm"}
		should, plain := true, true
		answer := map[string]string{}
		for _, n := range names {
			a := rapid.SampledFrom([]string{"good", "good", "good", "good", "other", "junk", "empty", "404", "500", "300", "304", "399", "hang up", "too short", "break"}).Draw(t, "answer")
			answer[n] = a
			plain = plain && a == "good"
			should = should && !faulty(a)
		}
		answers := fmt.Sprint(answer)
		srv.mu.Lock()
		srv.answer = answer
		srv.mu.Unlock()
		z := zkutils.NewZkFiles(srv.ts.URL+"/zk/files", filepath.Join(base, "unused"), "json", zkutils.ZkFilesHashes{}, false)
		var err error
		out, m := stdout(func() { err = z.DebugDownloadPrintHashes(format) })
		if m != "" {
			t.Fatalf("crashed: %s", m)
		}
		if (err == nil) != should {
			t.Fatalf("the error is %v, should there be one: %v (%v)", err, !should, answers)
		}
		if err == nil {
			for _, n := range names {
				if h := hashOf(content(answer[n], n)); !strings.Contains(out, h) {
					t.Fatalf("the hash of %s is %s, printed is\n%s", n, h, out)
				}
			}
		}
		if l, _ := os.ReadDir(base); len(l) != 0 {
			t.Fatalf("%s is left behind", l[0].Name())
		}
		rec.Case(!plain, "%v %s", format, answers)
	})
}

// stdout is what f prints, and the message if it crashes.
func stdout(f func()) (string, string) {
	r, w, err := os.Pipe()
	vh.Must(err)
	old := os.Stdout
	os.Stdout = w
	done := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		done <- string(b)
	}()
	m := vh.Catch(f)
	os.Stdout = old
	vh.Must(w.Close())
	return <-done, m
}
