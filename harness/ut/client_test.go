package ut

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"github.com/iden3/go-iden3-core/components/httpclient"
	"pgregory.net/rapid"

	"verifharness/vh"
)

type inner struct {
	C int `json:"c" validate:"required"`
}

type result struct {
	A string `json:"a" validate:"required"`
	B []byte `json:"b"`
	D inner  `json:"d"`
}

// TestU04_Client: an answer is given as it is, or an error.
func TestU04_Client(t *testing.T) {
	rec := vh.NewRec("U04_Client", "clients that make 1 to 4 requests with the 4 methods, paths, queries and bodies, and answers of all statuses with right, incomplete, cut and other bodies, into structs, maps, and nothing; non-trivial: the answer is an error or not what was asked for")
	var mu sync.Mutex
	var sStatus int
	var sBody, sHow string
	var seen *http.Request
	var seenBody string
	ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		seen = r
		var b [4096]byte
		n, _ := r.Body.Read(b[:])
		seenBody = string(b[:n])
		if sHow == "cut" {
			w.Header().Set("Content-Length", fmt.Sprint(len(sBody)+10))
		}
		if sHow != "no type" {
			w.Header().Set("Content-Type", "application/json")
		}
		w.WriteHeader(sStatus)
		_, _ = w.Write([]byte(sBody))
		if sHow == "chunked" && len(sBody) > 0 {
			w.(http.Flusher).Flush()
		}
	}))
	defer ts.Close()
	vh.Check(t, 6000, 120000, func(t *rapid.T) {
		base := rapid.SampledFrom([]string{"", "/", "/api/v1", "/api/v1/", "/a%20b/", "/" + strings.Repeat("long/", 20) + "x", "/y" + strings.Repeat("z", 250)}).Draw(t, "base")
		cl := httpclient.NewHttpClient(ts.URL + base)
		odd := false
		var whats []string
		for n := rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "requests"); n > 0; n-- {
			status := rapid.SampledFrom([]int{200, 200, 200, 200, 201, 202, 203, 204, 226, 299, 300, 306, 399, 400, 401, 404, 499, 500, 503, 599, 600, 999}).Draw(t, "status")
			want := result{A: rapid.SampledFrom([]string{"x", "é\x01\"", strings.Repeat("long ", 2000)}).Draw(t, "a"), B: rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "b"), D: inner{rapid.SampledFrom([]int{1, -1, 1 << 40}).Draw(t, "c")}}
			msg := rapid.SampledFrom([]string{"", "no such thing", "\"\n"}).Draw(t, "message")
			good, err := json.Marshal(want)
			vh.Must(err)
			errBody, err := json.Marshal(map[string]string{"error": msg})
			vh.Must(err)
			kind := rapid.SampledFrom([]string{"good", "good", "error", "missing", "inner missing", "half", "html", "empty", "number", "null", "wrong type"}).Draw(t, "body")
			ok2xx := status < 300
			body, valid := "", false // JSON
			complete := false
			switch kind {
			case "good":
				body, valid, complete = string(good), true, true
			case "error":
				body, valid = string(errBody), true
			case "missing":
				body, valid = `{"b":"","d":{"c":3}}`, true
			case "inner missing":
				body, valid = `{"a":"x","d":{}}`, true
			case "half":
				body = string(good[:len(good)/2])
			case "html":
				body = "<html>no</html>"
			case "empty":
				body = ""
			case "number":
				body = "12"
			case "null":
				body, valid = "null", true
			case "wrong type":
				body = `{"a":12}`
			}
			how := rapid.SampledFrom([]string{"", "", "no type", "chunked", "cut"}).Draw(t, "how")
			mu.Lock()
			sStatus, sBody, sHow = status, body, how
			seen, seenBody = nil, ""
			mu.Unlock()
			method := rapid.SampledFrom([]string{"GET", "POST", "PUT", "DELETE"}).Draw(t, "method")
			path := rapid.SampledFrom([]string{"x", "claims/0x12", "a/b/c?d=1&e=5"}).Draw(t, "path")
			req := cl.NewRequest().Path(path)
			send := ""
			switch method {
			case "GET":
				req = req.Get("")
			case "DELETE":
				req = req.Delete("")
			default:
				send = rapid.SampledFrom([]string{"", "abc", `{"k":[1,2]}`}).Draw(t, "send")
				if method == "POST" {
					req = req.Post("")
				} else {
					req = req.Put("")
				}
				if send != "" {
					req = req.BodyJSON(json.RawMessage(send))
					if !json.Valid([]byte(send)) {
						req = cl.NewRequest().Path(path).Post("").BodyJSON(map[string]string{"k": send})
						method, send = "POST", `{"k":"`+send+`"}`
					}
				}
			}
			into := rapid.SampledFrom([]string{"struct", "struct", "map", "nothing"}).Draw(t, "into")
			var got result
			gotMap := map[string]interface{}{}
			what := fmt.Sprintf("%s %s %s: %d %q (%s) into %s", method, base, path, status, body, how, into)
			var rerr error
			if m := vh.Catch(func() {
				switch into {
				case "struct":
					rerr = cl.DoRequest(req, &got)
				case "map":
					rerr = cl.DoRequest(req, &gotMap)
				default:
					rerr = cl.DoRequest(req, nil)
				}
			}); m != "" {
				t.Fatalf("%s crashed: %s", what, m)
			}
			mu.Lock()
			r, rb := seen, seenBody
			mu.Unlock()
			full := strings.TrimSuffix(base, "/") + "/" + path
			if r == nil || r.Method != method || r.URL.RequestURI() != full || strings.TrimSpace(rb) != send {
				if r == nil {
					t.Fatalf("%s: nothing reached the server: %v", what, rerr)
				}
				t.Fatalf("the server saw %s %s %q, not %s %s %q", r.Method, r.URL.RequestURI(), rb, method, full, send)
			}
			switch {
			case !ok2xx && rerr == nil:
				t.Fatalf("%s is no error", what)
			case !ok2xx && kind == "error" && how != "cut":
				if !strings.Contains(rerr.Error(), msg) {
					t.Fatalf("%s: the error is %v", what, rerr)
				}
				if se, ok := rerr.(httpclient.ServerError); !ok || se.Err != msg {
					t.Fatalf("%s: the error is %#v", what, rerr)
				}
			case !ok2xx && valid && how != "cut":
				if se, ok := rerr.(httpclient.ServerError); kind != "wrong type" && (!ok || se.Err != "") {
					t.Fatalf("%s: the error is %#v", what, rerr)
				}
			case !ok2xx:
			case status == 204:
				if into == "struct" && rerr == nil {
					t.Fatalf("%s: nothing was received", what)
				}
				if into != "struct" && rerr != nil {
					t.Fatalf("%s: %v", what, rerr)
				}
			case into == "nothing":
				if rerr != nil {
					t.Fatalf("%s: %v", what, rerr)
				}
			case into == "struct":
				if complete {
					if rerr != nil || got.A != want.A || string(got.B) != string(want.B) || got.D != want.D {
						t.Fatalf("%s: %+v (%v)", what, got, rerr)
					}
				} else if rerr == nil {
					t.Fatalf("%s gives no error but %+v", what, got)
				}
			case into == "map":
				var ref map[string]interface{}
				uerr := json.Unmarshal([]byte(body), &ref)
				switch {
				case kind == "empty":
				case valid && kind != "null":
					if rerr != nil || uerr != nil || fmt.Sprint(gotMap) != fmt.Sprint(ref) {
						t.Fatalf("%s: %v (%v)", what, gotMap, rerr)
					}
				case uerr != nil && rerr == nil:
					t.Fatalf("%s gives no error but %v", what, gotMap)
				}
			}
			rec.Label("%s", kind)
			odd = odd || !ok2xx || !complete
			whats = append(whats, what)
		}
		rec.Case(odd, "%v", whats)
	})
	t.Run("gone", func(t *testing.T) {
		gone := httptest.NewServer(nil)
		url := gone.URL
		gone.Close()
		for _, u := range []string{url, "", "/", "no url", "http://", "://", "http://127.0.0.1:0/", "http://[::1"} {
			var err error
			var got result
			if m := vh.Catch(func() {
				cl := httpclient.NewHttpClient(u)
				err = cl.DoRequest(cl.NewRequest().Path("x").Get(""), &got)
			}); m != "" {
				t.Fatalf("a client for %q crashed: %s", u, m)
			}
			if err == nil {
				t.Fatalf("a client for %q gives no error", u)
			}
		}
	})
}
