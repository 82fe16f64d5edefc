package toyzk

import (
	"math/big"
	"testing"
	"time"

	"github.com/iden3/go-circom-prover-verifier/prover"
	"github.com/iden3/go-circom-prover-verifier/verifier"
	witnesscalc "github.com/iden3/go-circom-witnesscalc"
)

func TestToy(t *testing.T) {
	c := Circuit{Public: []Signal{{"id", 1}, {"old", 1}, {"sib", 3}}}
	z := c.Files(true)
	if err := z.LoadAll(); err != nil {
		t.Fatal(err)
	}
	pk, _ := z.ProvingKey()
	vk, _ := z.VerificationKey()
	wasm, _ := z.WitnessCalcWASM()
	big1 := new(big.Int).Sub(zR(), big.NewInt(5))
	for i := 0; i < 3; i++ {
		t0 := time.Now()
		w, err := witnesscalc.CalculateWitnessBinWASM(wasm, map[string]interface{}{"id": big.NewInt(7), "old": new(big.Int).Lsh(big.NewInt(1), 200), "sib": []*big.Int{big.NewInt(1), big1, big.NewInt(0x7fffffff)}, "other": []*big.Int{big1, big1}})
		if err != nil {
			t.Fatal(err)
		}
		t1 := time.Now()
		p, pub, err := prover.GenerateProof(pk, w)
		if err != nil {
			t.Fatal(err)
		}
		t2 := time.Now()
		if !verifier.Verify(vk, p, pub) {
			t.Fatal("no")
		}
		t3 := time.Now()
		t.Log(pub, t1.Sub(t0), t2.Sub(t1), t3.Sub(t2))
		pub[1] = big.NewInt(9)
		if verifier.Verify(vk, p, pub) {
			t.Fatal("yes")
		}
	}
}
func zR() *big.Int { return r }
