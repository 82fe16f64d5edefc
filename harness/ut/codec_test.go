package ut

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"math/big"
	"strings"
	"testing"

	"github.com/iden3/go-iden3-core/common"
	"github.com/iden3/go-iden3-core/crypto"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verifharness/mtx"
	"verifharness/vh"
)

const digits = "0123456789abcdef"

// hexOf is the reference.
func hexOf(b []byte) string {
	var s strings.Builder
	for _, c := range b {
		s.WriteByte(digits[c>>4])
		s.WriteByte(digits[c&15])
	}
	return s.String()
}

// unhex is the reference: the bytes of hex digits, of both cases.
func unhex(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	r := []byte{}
	for i := 0; i < len(s); i += 2 {
		h, l := strings.IndexByte(digits, s[i]|0x20), strings.IndexByte(digits, s[i+1]|0x20)
		if s[i] < '0' || s[i+1] < '0' || h < 0 || l < 0 {
			return nil, false
		}
		r = append(r, byte(h<<4|l))
	}
	return r, true
}

// TestU02_Hex: bytes written as hex are read back, and nothing else is.
func TestU02_Hex(t *testing.T) {
	rec := vh.NewRec("U02_Hex", "0 to 70 bytes written as hex in all ways, and read, as they are and with characters changed, cut or put in; non-trivial: the text was changed")
	vh.Check(t, 200000, 4000000, func(t *rapid.T) {
		b := rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "bytes")
		in := append([]byte(nil), b...)
		want := hexOf(b)
		if s := common.HexEncode(in); s != "0x"+want {
			t.Fatalf("HexEncode: %s, want 0x%s", s, want)
		}
		txt, err := common.Hex(in).MarshalText()
		if err != nil || string(txt) != want || common.Hex(in).String() != want {
			t.Fatalf("Hex: %s (%v), want %s", txt, err, want)
		}
		type T struct{ A common.Hex }
		js, err := json.Marshal(T{common.Hex(in)})
		if err != nil || string(js) != `{"A":"`+want+`"}` {
			t.Fatalf("JSON: %s (%v)", js, err)
		}
		if !bytes.Equal(in, b) {
			t.Fatalf("writing changed the bytes")
		}
		s := want
		if rapid.Bool().Draw(t, "prefix") {
			s = "0x" + s
		}
		change := rapid.SampledFrom([]string{"", "", "char", "cut", "insert", "upper", "prefix", "any"}).Draw(t, "change")
		at := func() int { return rapid.IntRange(0, len(s)).Draw(t, "at") }
		ch := func() string {
			return rapid.SampledFrom([]string{"g", "G", "0", "x", " ", "\n", "-", "\x00", "é", "/", ":", "@", "`", "F"}).Draw(t, "char")
		}
		orig := s
		switch change {
		case "char":
			if i := at(); i < len(s) {
				s = s[:i] + ch() + s[i+1:]
			}
		case "cut":
			s = s[:at()]
		case "insert":
			i := at()
			s = s[:i] + ch() + s[i:]
		case "upper":
			s = strings.ToUpper(s)
		case "prefix":
			s = "0x" + s
		case "any":
			s = rapid.String().Draw(t, "text")
		}
		trimmed := strings.TrimPrefix(s, "0x")
		ref, ok := unhex(trimmed)
		// reading with an optional prefix
		read := func(what string, f func() ([]byte, error), ref []byte, ok bool) {
			var got []byte
			var err error
			if m := vh.Catch(func() { got, err = f() }); m != "" {
				t.Fatalf("%s of %q crashed: %s", what, s, m)
			}
			if (err == nil) != ok || ok && !bytes.Equal(got, ref) {
				t.Fatalf("%s of %q gives %x (%v), should be %x (%v)", what, s, got, err, ref, ok)
			}
		}
		read("HexDecode", func() ([]byte, error) { return common.HexDecode(s) }, ref, ok)
		n := len(b)
		if rapid.IntRange(0, 3).Draw(t, "other size") == 0 {
			n = rapid.IntRange(0, 75).Draw(t, "size")
		}
		// the room after dst is not dst's
		room := bytes.Repeat([]byte{0xa5}, n+40)
		into := func(f func(dst []byte) error) func() ([]byte, error) {
			return func() ([]byte, error) {
				for i := range room {
					room[i] = 0xa5
				}
				err := f(room[:n])
				return room[:n], err
			}
		}
		okInto := ok && len(ref) == n
		read("HexDecodeInto", into(func(dst []byte) error { return common.HexDecodeInto(dst, []byte(s)) }), ref, okInto)
		q, err := json.Marshal(s)
		vh.Must(err)
		var s2 string
		vh.Must(json.Unmarshal(q, &s2)) // what is no text is replaced
		if s2 == s {
			read("UnmarshalJSONHexDecode", func() ([]byte, error) { return common.UnmarshalJSONHexDecode(q) }, ref, ok)
			read("UnmarshalJSONHexDecodeInto", into(func(dst []byte) error { return common.UnmarshalJSONHexDecodeInto(dst, q) }), ref, okInto)
		}
		if !bytes.Equal(room[n:], bytes.Repeat([]byte{0xa5}, 40)) {
			t.Fatalf("decoding %q into %d bytes wrote beyond them", s, n)
		}
		ref, ok = unhex(s)
		read("Hex.UnmarshalText", func() ([]byte, error) {
			var h common.Hex
			err := h.UnmarshalText([]byte(s))
			return h, err
		}, ref, ok)
		for _, junk := range []string{"", "1", "null", "[]", "{}", `"`, `"00`} {
			if m := vh.Catch(func() {
				_, _ = common.UnmarshalJSONHexDecode([]byte(junk))
				_ = common.UnmarshalJSONHexDecodeInto(make([]byte, 2), []byte(junk))
			}); m != "" {
				t.Fatalf("JSON %q crashed: %s", junk, m)
			}
		}
		rec.Label("%s", change)
		rec.Case(s != orig, "%x %s %q into %d", b, change, s, n)
	})
}

// TestU02_Base64: bytes written in base64 are read back, and nothing else is.
func TestU02_Base64(t *testing.T) {
	rec := vh.NewRec("U02_Base64", "0 to 40 bytes written in base64, with and without padding, and read, as they are and with characters changed, cut or put in; non-trivial: without padding or changed")
	vh.Check(t, 200000, 4000000, func(t *rapid.T) {
		b := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
		full := base64.StdEncoding.EncodeToString(b)
		in := append([]byte(nil), b...)
		if s := common.BytesToBase64(in); s != full || !bytes.Equal(in, b) {
			t.Fatalf("BytesToBase64 of %x: %s", b, s)
		}
		if got, err := common.Base64ToBytes(full); err != nil || !bytes.Equal(got, b) {
			t.Fatalf("Base64ToBytes of %s: %x (%v)", full, got, err)
		}
		raw := strings.TrimRight(full, "=")
		for _, s := range []string{full, raw} {
			s := s
			var got []byte
			var err error
			if m := vh.Catch(func() { got, err = common.Base64Decode(s) }); m != "" {
				t.Fatalf("Base64Decode of %q crashed: %s", s, m)
			}
			if err != nil || !bytes.Equal(got, b) {
				t.Fatalf("Base64Decode of %q gives %x (%v), want %x", s, got, err, b)
			}
		}
		s := full
		if rapid.Bool().Draw(t, "raw") {
			s = raw
		}
		change := rapid.SampledFrom([]string{"", "char", "cut", "insert", "any"}).Draw(t, "change")
		at := func() int { return rapid.IntRange(0, len(s)).Draw(t, "at") }
		ch := func() string {
			return rapid.SampledFrom([]string{"=", "=", "==", "-", "_", " ", "A", "/", "+", "é", "\x00", "."}).Draw(t, "char")
		}
		switch change {
		case "char":
			if i := at(); i < len(s) {
				s = s[:i] + ch() + s[i+1:]
			}
		case "cut":
			s = s[:at()]
		case "insert":
			i := at()
			s = s[:i] + ch() + s[i:]
		case "any":
			s = rapid.String().Draw(t, "text")
		}
		var got, strict []byte
		var err, serr error
		if m := vh.Catch(func() { got, err = common.Base64Decode(s); strict, serr = common.Base64ToBytes(s) }); m != "" {
			t.Fatalf("decoding %q crashed: %s", s, m)
		}
		want, werr := base64.RawStdEncoding.DecodeString(strings.TrimRight(s, "="))
		if err == nil && (werr != nil || !bytes.Equal(got, want)) {
			t.Fatalf("Base64Decode of %q gives %x, should be %x (%v)", s, got, want, werr)
		}
		if err != nil && werr == nil && (!strings.HasSuffix(s, "=") || len(s)%4 == 0 && !strings.HasSuffix(s, "===")) {
			t.Fatalf("Base64Decode of %q: %v", s, err)
		}
		want, werr = base64.StdEncoding.DecodeString(s)
		if (serr == nil) != (werr == nil) || serr == nil && !bytes.Equal(strict, want) {
			t.Fatalf("Base64ToBytes of %q gives %x (%v), should be %x (%v)", s, strict, serr, want, werr)
		}
		rec.Label("%s", change)
		rec.Case(s != full, "%x %s %q", b, change, s)
	})
}

// TestU02_Numbers: numbers, bits and hashes.
func TestU02_Numbers(t *testing.T) {
	rec := vh.NewRec("U02_Numbers", "numbers written and read in both orders, bits set and read in both orders in maps of 1 to 40 bytes, bytes turned around and hashed; non-trivial: a map of more than one byte with some bits set")
	vh.Check(t, 200000, 4000000, func(t *rapid.T) {
		v := rapid.Uint64().Draw(t, "number")
		var le, be [8]byte
		binary.LittleEndian.PutUint64(le[:], v)
		binary.BigEndian.PutUint64(be[:], v)
		v16, v32 := uint16(v), uint32(v)
		more := rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "more")
		w := func(b []byte) []byte { return append(append([]byte(nil), b...), more...) }
		if x := common.Uint16ToBytes(v16); !bytes.Equal(x, le[:2]) || common.BytesToUint16(w(x)) != v16 {
			t.Fatalf("16 bits of %x: %x", v16, x)
		}
		if x := common.Uint32ToBytes(v32); !bytes.Equal(x, le[:4]) || common.BytesToUint32(w(x)) != v32 {
			t.Fatalf("32 bits of %x: %x", v32, x)
		}
		if x := common.Uint32ToEthBytes(v32); !bytes.Equal(x, be[4:]) || common.EthBytesToUint32(w(x)) != v32 {
			t.Fatalf("32 bits of %x: %x", v32, x)
		}
		if x := common.Uint64ToEthBytes(v); !bytes.Equal(x, be[:]) || common.EthBytesToUint64(w(x)) != v {
			t.Fatalf("64 bits of %x: %x", v, x)
		}
		b := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "map")
		n := uint(rapid.IntRange(0, len(b)*8-1).Draw(t, "bit"))
		num := new(big.Int).SetBytes(b)
		if common.TestBitBigEndian(b, n) != (num.Bit(int(n)) == 1) {
			t.Fatalf("bit %d of %x", n, b)
		}
		rev := append([]byte(nil), b...)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		if common.TestBit(rev, n) != (num.Bit(int(n)) == 1) {
			t.Fatalf("bit %d of %x (little endian)", n, rev)
		}
		in := append([]byte(nil), b...)
		if x := common.SwapEndianness(in); !bytes.Equal(x, rev) || !bytes.Equal(in, b) {
			t.Fatalf("%x turned around is %x", b, x)
		} else {
			x[0] ^= 0xff
			if !bytes.Equal(in, b) {
				t.Fatalf("what was turned around is not apart")
			}
		}
		set := new(big.Int).SetBit(num, int(n), 1)
		x := append([]byte(nil), b...)
		common.SetBitBigEndian(x, n)
		if set.Cmp(new(big.Int).SetBytes(x)) != 0 {
			t.Fatalf("bit %d set in %x: %x", n, b, x)
		}
		x = append([]byte(nil), rev...)
		common.SetBit(x, n)
		if set.Cmp(new(big.Int).SetBytes(common.SwapEndianness(x))) != 0 {
			t.Fatalf("bit %d set in %x (little endian): %x", n, rev, x)
		}
		h := sha3.NewLegacyKeccak256()
		h.Write(be[:])
		h.Write(b)
		hash := crypto.HashBytes(be[:], b)
		if !bytes.Equal(hash[:], h.Sum(nil)) || hash.Hex() != "0x"+hexOf(hash[:]) {
			t.Fatalf("the hash of %x and %x is %s", be, b, hash.Hex())
		}
		rec.Case(len(b) > 1 && num.Sign() != 0, "%x %x bit %d", v, b, n)
	})
}

// TestU02_PubSignals: public signals and inputs are written and read as they are.
func TestU02_PubSignals(t *testing.T) {
	rec := vh.NewRec("U02_PubSignals", "lists of 0 to 8 elements of the field (or larger numbers) written as JSON and read, and JSON cut or with characters changed; inputs written as strings; non-trivial: an element with a zero byte at an end")
	vh.Check(t, 60000, 1200000, func(t *rapid.T) {
		var p zkutils.PubSignals
		zero := false
		for n := rapid.IntRange(0, 8).Draw(t, "signals"); n > 0; n-- {
			v := mtx.Int(mtx.Elem(false).Draw(t, "element"))
			switch rapid.IntRange(0, 7).Draw(t, "kind") {
			case 0:
				v.Lsh(v, uint(rapid.IntRange(0, 40).Draw(t, "shift")))
			case 1:
				v.Lsh(big.NewInt(1), uint(rapid.IntRange(0, 260).Draw(t, "power")))
			case 2:
				v.SetUint64(0)
			}
			if b := v.Bytes(); len(b) == 0 || b[len(b)-1] == 0 {
				zero = true
			}
			p = append(p, v)
		}
		js, err := json.Marshal(p)
		if err != nil {
			t.Fatalf("writing: %v", err)
		}
		var q zkutils.PubSignals
		if err := json.Unmarshal(js, &q); err != nil {
			t.Fatalf("reading %s: %v", js, err)
		}
		if len(q) != len(p) {
			t.Fatalf("%d signals read from %s", len(q), js)
		}
		for i := range p {
			if p[i].Cmp(q[i]) != 0 {
				t.Fatalf("signal %d of %v is read as %v from %s", i, p[i], q[i], js)
			}
		}
		bad := append([]byte(nil), js...)
		if rapid.Bool().Draw(t, "cut") {
			bad = bad[:rapid.IntRange(0, len(bad)-1).Draw(t, "length")]
		} else {
			bad[rapid.IntRange(0, len(bad)-1).Draw(t, "at")] = rapid.SampledFrom([]byte(`0g"[]{,-x `)).Draw(t, "char")
		}
		var r zkutils.PubSignals
		var rerr error
		if m := vh.Catch(func() { rerr = json.Unmarshal(bad, &r) }); m != "" {
			t.Fatalf("reading %s crashed: %s", bad, m)
		}
		if rerr == nil {
			// it says what was read: no more and no fewer digits
			var ss []string
			if err := json.Unmarshal(bad, &ss); err != nil || len(ss) != len(r) {
				t.Fatalf("%s is read as %v", bad, r)
			}
			for i, s := range ss {
				b, ok := unhex(s)
				if !ok || new(big.Int).SetBytes(common.SwapEndianness(b)).Cmp(r[i]) != 0 {
					t.Fatalf("%q is read as %v", s, r[i])
				}
			}
		}
		in := struct {
			A *big.Int   `mapstructure:"a"`
			B []*big.Int `mapstructure:"b"`
		}{big.NewInt(-5), p}
		if len(p) > 0 {
			in.A = p[0]
		}
		m, err := zkutils.InputsToMapStrings(in)
		if err != nil || len(m) != 2 || m["a"] != in.A.String() {
			t.Fatalf("the inputs %v as strings: %v (%v)", in, m, err)
		}
		ss, ok := m["b"].([]string)
		if !ok || len(ss) != len(p) {
			t.Fatalf("the inputs %v as strings: %v", in, m)
		}
		for i := range ss {
			if ss[i] != p[i].String() {
				t.Fatalf("the inputs %v as strings: %v", in, m)
			}
		}
		rec.Case(zero, "%s, %q", js, bad)
	})
}
