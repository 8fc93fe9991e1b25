// mine finds keys whose SHA-256 share long prefixes: for each length p a pair
// with exactly p common bits, and clusters around one key. Its output is
// committed as harness/keys.json.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"sort"
)

type kv struct {
	h uint64
	n uint32
}

func key(n uint32) string { return fmt.Sprintf("k%d", n) }

func main() {
	const N = 1 << 26
	a := make([]kv, N)
	for i := range a {
		s := sha256.Sum256([]byte(key(uint32(i))))
		a[i] = kv{binary.BigEndian.Uint64(s[:8]), uint32(i)}
	}
	sort.Slice(a, func(i, j int) bool { return a[i].h < a[j].h })
	cpl := func(x, y uint64) int { return bits.LeadingZeros64(x ^ y) }
	pairs := map[int][2]string{}
	for i := 0; i+1 < len(a); i++ {
		c := cpl(a[i].h, a[i+1].h)
		if _, ok := pairs[c]; !ok {
			pairs[c] = [2]string{key(a[i].n), key(a[i+1].n)}
		}
	}
	// the most similar pair, and around it the key nearest to each length below
	best := 0
	bi := 0
	for i := 0; i+1 < len(a); i++ {
		if c := cpl(a[i].h, a[i+1].h); c > best {
			best, bi = c, i
		}
	}
	base := a[bi]
	cl := map[int]string{}
	for i := range a {
		if i == bi {
			continue
		}
		c := cpl(a[i].h, base.h)
		if _, ok := cl[c]; !ok {
			cl[c] = key(a[i].n)
		}
	}
	// triples: x,y share p bits and z shares p-1..p-3 with both, long
	trip := [][3]string{}
	for i := 0; i+2 < len(a) && len(trip) < 8; i++ {
		if cpl(a[i].h, a[i+2].h) >= 33 {
			trip = append(trip, [3]string{key(a[i].n), key(a[i+1].n), key(a[i+2].n)})
		}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"pairs": pairs, "base": key(base.n), "cluster": cl, "triples": trip})
}
