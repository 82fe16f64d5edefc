// Command pool2 searches entries whose hashes start or end with zero bytes and
// prints them as Go source (mtx/zeros.go). Run once; the result is committed.
package main

import (
	"encoding/binary"
	"fmt"
	"sync"

	"github.com/iden3/go-iden3-core/merkletree"
)

func entry(s, v uint32) *merkletree.Entry {
	var e merkletree.Entry
	binary.LittleEndian.PutUint32(e.Data[0][:], s)
	binary.LittleEndian.PutUint32(e.Data[4][:], v)
	return &e
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	kinds := []string{"low bytes of the leaf key", "high bytes of the leaf key", "low bytes of the hash of the value", "high bytes of the hash of the value", "low bytes of the hash of the index", "high bytes of the hash of the index"}
	found := make([][][2]uint32, len(kinds))
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < 600000; i += 8 {
				s, v := uint32(i%25), uint32(i)
				e := entry(s, v)
				if i%2 == 1 {
					s, v = uint32(i), 0
					e = entry(s, v)
				}
				hi, hv, err := e.HiHv()
				must(err)
				k, err := merkletree.LeafKey(hi, hv)
				must(err)
				for j, h := range []*merkletree.Hash{k, hv, hi} {
					low, high := h[0] == 0 && h[1] == 0, h[31] == 0 && h[30] == 0
					if j == 1 && v == 0 || j == 2 && v != 0 {
						continue
					}
					mu.Lock()
					if low && len(found[2*j]) < 6 {
						found[2*j] = append(found[2*j], [2]uint32{s, v})
					}
					if high && len(found[2*j+1]) < 6 {
						found[2*j+1] = append(found[2*j+1], [2]uint32{s, v})
					}
					mu.Unlock()
				}
			}
		}(w)
	}
	wg.Wait()
	fmt.Println("// Code generated by tools/pool2; DO NOT EDIT.\n\npackage mtx\n\n// Zeros lists seeds and values of entries with zero bytes at an end of a hash.\nvar Zeros = [][2]uint32{")
	for i, k := range kinds {
		fmt.Printf("\t// %s\n", k)
		for _, p := range found[i] {
			fmt.Printf("\t{%d, %d},\n", p[0], p[1])
		}
	}
	fmt.Println("}")
}
