// Command pool searches claim indexes whose tree paths share long prefixes and
// prints them as Go source (mtx/pool.go). Run once; the result is committed.
package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"os"
	"sort"
	"strconv"
	"sync"

	"github.com/iden3/go-iden3-core/merkletree"
)

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	type it struct {
		k uint64 // first 64 path bits, first step in the top bit
		s uint32
	}
	items := make([]it, n)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < n; i += 8 {
				var e merkletree.Entry
				binary.LittleEndian.PutUint32(e.Data[0][:], uint32(i))
				h, err := e.HIndex()
				if err != nil {
					panic(err)
				}
				items[i] = it{bits.Reverse64(binary.LittleEndian.Uint64(h[:8])), uint32(i)}
			}
		}(w)
	}
	wg.Wait()
	sort.Slice(items, func(i, j int) bool { return items[i].k < items[j].k })
	type pr struct {
		l    int
		a, b uint32
	}
	var ps []pr
	for i := 0; i+1 < n; i++ {
		ps = append(ps, pr{bits.LeadingZeros64(items[i].k ^ items[i+1].k), items[i].s, items[i+1].s})
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].l > ps[j].l })
	fmt.Println("// Code generated by tools/pool; DO NOT EDIT.\n\npackage mtx\n\n// PrefixPairs lists pairs of seeds whose paths agree on exactly L steps.\nvar PrefixPairs = []PrefixPair{")
	cnt := map[int]int{}
	for _, p := range ps {
		if cnt[p.l] >= 8 || p.l < 6 {
			continue
		}
		cnt[p.l]++
		fmt.Printf("\t{%d, %d, %d},\n", p.l, p.a, p.b)
	}
	fmt.Println("}")
	// a dense bundle: many seeds sharing a 12-step prefix
	best, bi := 0, 0
	for i := 0; i < n; {
		j := i
		for j < n && items[j].k>>52 == items[i].k>>52 {
			j++
		}
		if j-i > best {
			best, bi = j-i, i
		}
		i = j
	}
	if best > 64 {
		best = 64
	}
	fmt.Println("\n// Bundle lists seeds whose paths share their first 12 steps.\nvar Bundle = []uint32{")
	for i := bi; i < bi+best; i++ {
		fmt.Printf("\t%d,\n", items[i].s)
	}
	fmt.Println("}")
}
