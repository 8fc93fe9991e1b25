package main

import (
	"fmt"
	"strconv"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	scenarios["C05"] = scenLogVerifiers
	scenarios["C10"] = scenMapVerifier
}

// A reference Merkle tree, used to make heads and proofs (what they are is checked by the specification).

func split(n int) int {
	k := 1
	for 2*k < n {
		k *= 2
	}
	return k
}

func mth(h [][]byte) []byte {
	switch len(h) {
	case 0:
		return nil
	case 1:
		return h[0]
	}
	k := split(len(h))
	return nodeHash(mth(h[:k]), mth(h[k:]))
}

func apath(m int, h [][]byte) [][]byte {
	if len(h) == 1 {
		return nil
	}
	k := split(len(h))
	if m < k {
		return append(apath(m, h[:k]), mth(h[k:]))
	}
	return append(apath(m-k, h[k:]), mth(h[:k]))
}

func cproof(m int, h [][]byte, b bool) [][]byte {
	n := len(h)
	if m == n {
		if b {
			return nil
		}
		return [][]byte{mth(h)}
	}
	k := split(n)
	if m <= k {
		return append(cproof(m, h[:k], b), mth(h[k:]))
	}
	return append(cproof(m-k, h[k:], false), mth(h[:k]))
}

func nodes(h [][]byte, into map[string]bool) {
	if len(h) == 0 {
		return
	}
	into[string(mth(h))] = true
	if len(h) > 1 {
		k := split(len(h))
		nodes(h[:k], into)
		nodes(h[k:], into)
	}
}

func leaves(n int, tag string) [][]byte {
	var rv [][]byte
	for i := 0; i < n; i++ {
		rv = append(rv, leafHash([]byte(tag+strconv.Itoa(i))))
	}
	return rv
}

func cp(p [][]byte) [][]byte {
	rv := make([][]byte, len(p))
	for i, b := range p {
		rv[i] = append([]byte{}, b...)
	}
	return rv
}

// variants of a path that differ from it (nearly always), and the path itself.
func (s *S) variants(p [][]byte, pool [][]byte) [][][]byte {
	rnd := make([]byte, 32)
	s.rng.Read(rnd)
	rv := [][][]byte{p, nil, append(cp(p), rnd), append(cp(p), pool[s.rng.Intn(len(pool))]), append([][]byte{rnd}, p...), append(cp(p), nil),
		append([][]byte{nil}, p...), {{}}, {nil, nil}}
	if len(p) > 0 {
		rv = append(rv, cp(p)[1:], cp(p)[:len(p)-1], append(cp(p), p[len(p)-1]), append([][]byte{p[0]}, p...))
		var rev [][]byte
		for i := range p {
			rev = append(rev, p[len(p)-1-i])
		}
		rv = append(rv, rev)
		for i := range p {
			q := cp(p)
			q[i][s.rng.Intn(32)] ^= 1 << uint(s.rng.Intn(8))
			rv = append(rv, q)
			q = cp(p)
			q[i] = pool[s.rng.Intn(len(pool))]
			rv = append(rv, q)
		}
		i := s.rng.Intn(len(p))
		for _, x := range [][]byte{nil, {}, p[i][:31], append(append([]byte{}, p[i]...), 0), append(append([]byte{}, p[i]...), p[i]...), rnd} {
			q := cp(p)
			q[i] = x
			rv = append(rv, q)
		}
		if i+1 < len(p) { // two elements run together
			q := append(cp(p)[:i], append(append([]byte{}, p[i]...), p[i+1]...))
			rv = append(rv, append(q, cp(p)[i+2:]...))
			q = cp(p)
			q[i], q[i+1] = q[i+1], q[i]
			rv = append(rv, q)
		}
	}
	return rv
}

var hugeSizes = []int64{-1, -2, 0, 1 << 31, 1 << 32, 1<<62 + 1, 1<<63 - 1, -1 << 63}

type lv struct {
	*Tr
	a, b [][]byte
}

func (v *lv) lists(a, b [][]byte) {
	v.a, v.b = a, b
	v.emit(Ev{"ev": "lists", "a": hxs(a), "b": hxs(b)})
}

func (v *lv) incl(real bool, hn int64, hroot, leaf []byte, i, n int64, path [][]byte) {
	ver := guardErr(func() error {
		return verifiable.VerifyLogInclusionProof(&pb.LogInclusionProofResponse{LeafIndex: i, TreeSize: n, AuditPath: path}, leaf,
			&pb.LogTreeHashResponse{TreeSize: hn, RootHash: hroot})
	})
	v.emit(Ev{"ev": "incl", "real": real, "hn": clamp(hn), "hroot": hx(hroot), "leaf": hx(leaf), "i": clamp(i), "n": clamp(n), "path": hxs(path), "verdict": ver})
}

func (v *lv) cons(real bool, an int64, aroot []byte, bn int64, broot []byte, m, n int64, path [][]byte) {
	ver := guardErr(func() error {
		return verifiable.VerifyLogConsistencyProof(&pb.LogConsistencyProofResponse{FromSize: m, TreeSize: n, AuditPath: path},
			&pb.LogTreeHashResponse{TreeSize: an, RootHash: aroot}, &pb.LogTreeHashResponse{TreeSize: bn, RootHash: broot})
	})
	v.emit(Ev{"ev": "cons", "real": real, "an": clamp(an), "aroot": hx(aroot), "bn": clamp(bn), "broot": hx(broot),
		"m": clamp(m), "n": clamp(n), "path": hxs(path), "verdict": ver})
}

func flip(s *S, b []byte) []byte {
	q := append([]byte{}, b...)
	if len(q) == 0 {
		return []byte{1}
	}
	q[s.rng.Intn(len(q))] ^= 1 << uint(s.rng.Intn(8))
	return q
}

func scenLogVerifiers(s *S) {
	pool := func(h [][]byte) [][]byte {
		m := map[string]bool{}
		for i := 1; i <= len(h); i++ {
			nodes(h[:i], m)
		}
		var rv [][]byte
		for _, k := range sortedKeys(m) {
			rv = append(rv, []byte(k))
		}
		return rv
	}
	// inclusion: true proofs and their alterations
	inclCase := func(v *lv, h [][]byte, i int, full bool) {
		n := len(h)
		root, p, pl := mth(h), apath(i, h), pool(h)
		leaf := h[i]
		N, I := int64(n), int64(i)
		for j, q := range s.variants(p, pl) {
			if full || j == 0 || s.rng.Intn(3) == 0 {
				v.incl(true, N, root, leaf, I, N, q)
			}
		}
		for _, x := range append([]int64{I + 1, I - 1, N - 1 - I, N, I ^ 1, I + N, I + int64(split(n)*2)}, hugeSizes...) {
			v.incl(true, N, root, leaf, x, N, p)
		}
		for _, x := range append([]int64{N + 1, N - 1, I, I + 1, N * 2, int64(split(n) * 2)}, hugeSizes...) {
			v.incl(true, N, root, leaf, I, x, p)
		}
		v.incl(true, N, root, h[s.rng.Intn(n)], I, N, p)
		v.incl(true, N, root, flip(s, leaf), I, N, p)
		v.incl(false, N, flip(s, root), leaf, I, N, p)
		v.incl(false, N, nil, leaf, I, N, p)
		v.incl(false, N, root[:31], leaf, I, N, p)
		v.incl(false, N, append(append([]byte{}, root...), 0), leaf, I, N, p)
		v.incl(false, N+1, root, leaf, I, N, p)
		v.incl(false, 0, nil, leaf, I, N, p)
		v.incl(true, N, root, root, 0, N, nil)
		v.incl(true, N, root, root, I, N, nil)
		v.incl(true, N, root, root, 0, 1, nil) // a tree of one that is the root
		if n > 1 {                             // an inner node taken for a leaf
			k := split(n)
			v.incl(true, N, root, mth(h[:k]), 0, N, [][]byte{mth(h[k:])})
			v.incl(true, N, root, mth(h[k:]), 1, N, [][]byte{mth(h[:k])})
			v.incl(true, N, root, mth(h[k:]), N-1, N, [][]byte{mth(h[:k])})
			v.incl(true, N, root, mth(h[:k]), 0, 2, [][]byte{mth(h[k:])})
		}
	}
	v := &lv{Tr: newTrace()}
	for n := 1; n <= s.q(9, 18); n++ {
		h := leaves(n, "e")
		v.lists(nil, h)
		for i := 0; i < n; i++ {
			inclCase(v, h, i, true)
		}
	}
	v = &lv{Tr: newTrace()}
	for _, n := range []int{16, 17, 31, 33, 64, 100, 127, 128, 129, 255, 257, 511 + s.rng.Intn(3)} {
		h := leaves(n, "f")
		v.lists(nil, h)
		for j := 0; j < s.q(3, 12); j++ {
			inclCase(v, h, []int{0, n - 1, s.rng.Intn(n)}[j%3], s.thorough)
		}
	}
	// consistency
	consCase := func(v *lv, a, b [][]byte, full bool) {
		m, n := len(a), len(b)
		v.lists(a, b)
		ra, rb := mth(a), mth(b)
		pl := append(pool(b), pool(a)...)
		if len(pl) == 0 {
			pl = [][]byte{leafHash(nil)}
		}
		M, N := int64(m), int64(n)
		var p [][]byte
		if m >= 1 && m <= n {
			p = cproof(m, b, true)
		}
		for j, q := range s.variants(p, pl) {
			if full || j == 0 || s.rng.Intn(4) == 0 {
				v.cons(true, M, ra, N, rb, M, N, q)
			}
		}
		if m >= 1 && m <= n {
			v.cons(true, M, ra, N, rb, M, N, append([][]byte{ra}, p...))
			v.cons(true, M, ra, N, rb, M, N, cproof(m, b, false))
		}
		xs := append([]int64{M + 1, M - 1, N}, hugeSizes...)
		for _, x := range xs {
			v.cons(true, M, ra, N, rb, x, N, p)
		}
		xs = append([]int64{N + 1, N - 1, M}, hugeSizes...)
		for _, x := range xs {
			v.cons(true, M, ra, N, rb, M, x, p)
		}
		v.cons(true, M, ra, N, rb, N, M, p)
		v.cons(false, M, flip(s, ra), N, rb, M, N, p)
		v.cons(false, M, ra, N, flip(s, rb), M, N, p)
		v.cons(false, M, rb, N, ra, M, N, p)
		v.cons(false, M, ra, N, ra, M, N, p)
		v.cons(false, M, rb, N, rb, M, N, nil)
		v.cons(false, M, nil, N, rb, M, N, p)
		v.cons(false, M, nil, N, nil, M, N, nil)
		v.cons(false, N, rb, M, ra, M, N, p)
		v.cons(false, N, rb, M, ra, N, M, p)
		v.cons(false, M+1, ra, N, rb, M, N, p)
		v.cons(false, M, ra, N+1, rb, M, N, p)
	}
	v = &lv{Tr: newTrace()}
	top := s.q(9, 17)
	for n := 0; n <= top; n++ {
		for m := 0; m <= top; m++ {
			b := leaves(n, "e")
			consCase(v, leaves(m, "e"), b, n <= 9 && m <= 9)
			if m > 0 && m <= n { // forks: the last, the first, or some entry differs
				for _, x := range []int{m - 1, 0, s.rng.Intn(m)} {
					a := leaves(m, "e")
					a[x] = leafHash([]byte("fork"))
					consCase(v, a, b, false)
				}
			}
		}
	}
	v = &lv{Tr: newTrace()}
	for j := 0; j < s.q(40, 200); j++ {
		n := 2 + s.rng.Intn(300)
		m := 1 + s.rng.Intn(n-1)
		if j%4 == 0 {
			m = split(n)
		}
		b := leaves(n, "g")
		consCase(v, b[:m], b, false)
	}
	// all proofs over all hashes of the trees
	v = &lv{Tr: newTrace()}
	for n := 1; n <= s.q(4, 5); n++ {
		h := leaves(n, "e")
		v.lists(nil, h)
		uni := pool(h)
		f := leaves(n, "e")
		f[n-1] = leafHash([]byte("fork"))
		uni = append(uni, pool(f)...)
		uni = append(uni, leafHash([]byte("foreign")), nil)
		uni = dedup(uni)
		maxPath := 3
		crashes := 0
		accepted := [][]any{}
		root := mth(h)
		total := 0
		eachPath(uni, maxPath, func(p [][]byte) {
			for _, leaf := range uni {
				if len(leaf) != 32 {
					continue
				}
				for i := int64(-1); i <= int64(n); i++ {
					for sz := int64(n - 1); sz <= int64(n+1); sz++ {
						total++
						switch quick(func() error {
							return verifiable.VerifyLogInclusionProof(&pb.LogInclusionProofResponse{LeafIndex: i, TreeSize: sz, AuditPath: p}, leaf,
								&pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: root})
						}) {
						case "OK":
							accepted = append(accepted, []any{hx(leaf), i, sz, hxs(p)})
						case "PANIC":
							crashes++
						}
					}
				}
			}
		})
		count("exhaustive_incl", total)
		v.emit(Ev{"ev": "allincl", "hroot": hx(root), "universe": hxs(uni), "maxpath": maxPath, "accepted": accepted, "crashes": crashes, "total": total})
	}
	v = &lv{Tr: newTrace()}
	for n := 1; n <= s.q(5, 6); n++ {
		for m := 1; m <= n; m++ {
			for fork := -1; fork < m; fork++ {
				b := leaves(n, "e")
				a := leaves(m, "e")
				if fork >= 0 {
					a[fork] = leafHash([]byte("fork"))
				}
				v.lists(a, b)
				uni := dedup(append(append(pool(b), pool(a)...), leafHash([]byte("foreign")), nil))
				maxPath := 3
				if need := len(cproof(m, b, true)); need > maxPath {
					maxPath = need
				}
				if maxPath > 3 && len(uni) > 20 {
					uni = dedup(append(cproof(m, b, true), uni[:8]...))
				}
				crashes, total := 0, 0
				accepted := [][]any{}
				ra, rb := mth(a), mth(b)
				eachPath(uni, maxPath, func(p [][]byte) {
					for f := int64(m - 1); f <= int64(m+1); f++ {
						for sz := int64(n - 1); sz <= int64(n+1); sz++ {
							total++
							switch quick(func() error {
								return verifiable.VerifyLogConsistencyProof(&pb.LogConsistencyProofResponse{FromSize: f, TreeSize: sz, AuditPath: p},
									&pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: ra}, &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: rb})
							}) {
							case "OK":
								accepted = append(accepted, []any{f, sz, hxs(p)})
							case "PANIC":
								crashes++
							}
						}
					}
				})
				count("exhaustive_cons", total)
				v.emit(Ev{"ev": "allcons", "aroot": hx(ra), "broot": hx(rb), "universe": hxs(uni), "maxpath": maxPath, "accepted": accepted, "crashes": crashes, "total": total})
			}
		}
	}
	// heads that stand for nothing: any verdict, but a verdict
	t := newTrace()
	for _, hn := range hugeSizes {
		for _, x := range append([]int64{1, hn - 1, hn, hn + 1, hn / 2}, hugeSizes...) {
			for _, pl := range []int{0, 1, 31, 62, 63, 64, 65, 200} {
				p := leaves(pl, "p")
				t.emit(Ev{"ev": "any", "verdict": guardErr(func() error {
					return verifiable.VerifyLogInclusionProof(&pb.LogInclusionProofResponse{LeafIndex: x, TreeSize: hn, AuditPath: p}, leafHash(nil),
						&pb.LogTreeHashResponse{TreeSize: hn, RootHash: leafHash(nil)})
				})})
				t.emit(Ev{"ev": "any", "verdict": guardErr(func() error {
					return verifiable.VerifyLogConsistencyProof(&pb.LogConsistencyProofResponse{FromSize: x, TreeSize: hn, AuditPath: p},
						&pb.LogTreeHashResponse{TreeSize: x, RootHash: leafHash(nil)}, &pb.LogTreeHashResponse{TreeSize: hn, RootHash: leafHash(nil)})
				})})
			}
		}
	}
}

func dedup(bs [][]byte) [][]byte {
	seen := map[string]bool{}
	var rv [][]byte
	for _, b := range bs {
		if !seen[string(b)] {
			seen[string(b)] = true
			rv = append(rv, b)
		}
	}
	return rv
}

// eachPath calls f with every path of at most max elements.
func eachPath(uni [][]byte, max int, f func([][]byte)) {
	var rec func(p [][]byte)
	rec = func(p [][]byte) {
		f(p)
		if len(p) == max {
			return
		}
		for _, u := range uni {
			rec(append(p[:len(p):len(p)], u))
		}
	}
	rec(nil)
}

// quick is guardErr without the protection against loops, for enumerations.
func quick(f func() error) (rv string) {
	defer func() {
		if p := recover(); p != nil {
			rv = "PANIC"
		}
	}()
	if f() == nil {
		return "OK"
	}
	return "FAIL"
}

// C10

type kv struct{ k, v []byte }

var defs = merkle.GenerateMapDefaultLeafValues()

func sparseRoot(c []kv, d int) []byte {
	if len(c) == 0 {
		return defs[d]
	}
	if d == 256 {
		return leafHash(c[0].v)
	}
	var l, r []kv
	for _, x := range c {
		if merkle.ConstructMapKeyPath(x.k)[d] {
			r = append(r, x)
		} else {
			l = append(l, x)
		}
	}
	return nodeHash(sparseRoot(l, d+1), sparseRoot(r, d+1))
}

func sparsePath(c []kv, key []byte) [][]byte {
	bits := merkle.ConstructMapKeyPath(key)
	rv := make([][]byte, 256)
	for d := 0; d < 256; d++ {
		var same, other []kv
		for _, x := range c {
			if merkle.ConstructMapKeyPath(x.k)[d] == bits[d] {
				same = append(same, x)
			} else {
				other = append(other, x)
			}
		}
		if len(other) > 0 {
			rv[d] = sparseRoot(other, d+1)
		}
		c = same
	}
	return rv
}

func scenMapVerifier(s *S) {
	for round := 0; round < s.q(6, 30); round++ {
		t := newTrace()
		keys := s.keySet(7)
		var c []kv
		for i, k := range keys[:round%6] {
			c = append(c, kv{k, []byte(fmt.Sprintf("v%d", i%3))})
		}
		cs := [][2]string{}
		for _, x := range c {
			cs = append(cs, [2]string{hx(x.k), hx(x.v)})
		}
		t.emit(Ev{"ev": "cont", "c": cs, "keys": hxs(keys)})
		root := sparseRoot(c, 0)
		size := int64(len(c) + 1)
		val := func(k []byte) []byte {
			for _, x := range c {
				if string(x.k) == string(k) {
					return x.v
				}
			}
			return nil
		}
		ask := func(real bool, hs int64, hroot []byte, noHeadLog bool, key []byte, size int64, v *pb.LeafData, p [][]byte) {
			h := &pb.MapTreeHashResponse{RootHash: hroot, MutationLog: &pb.LogTreeHashResponse{TreeSize: hs, RootHash: leafHash(nil)}}
			if noHeadLog {
				h.MutationLog = nil
				hs = -7
			}
			ver := guardErr(func() error {
				return verifiable.VerifyMapInclusionProof(&pb.MapGetValueResponse{TreeSize: size, Value: v, AuditPath: p}, key, h)
			})
			t.emit(Ev{"ev": "get", "real": real, "hs": clamp(hs), "hroot": hx(hroot), "key": hx(key), "size": clamp(size), "hv": v != nil,
				"li": hx(v.GetLeafInput()), "plen": len(p), "path": path(p), "verdict": ver})
		}
		ld := func(b []byte) *pb.LeafData { return &pb.LeafData{LeafInput: b} }
		for ki, k := range keys {
			p := sparsePath(c, k)
			v := val(k)
			good := func(p [][]byte) { ask(true, size, root, false, k, size, ld(v), p) }
			good(p)
			// extra data and format do not matter
			ask(true, size, root, false, k, size, &pb.LeafData{LeafInput: v, ExtraData: []byte("x"), Format: 1}, p)
			for _, w := range [][]byte{nil, {}, []byte("v0"), []byte("v1"), []byte("v2"), []byte("other"), leafHash(v), append([]byte{0}, v...)} {
				ask(true, size, root, false, k, size, ld(w), p)
			}
			ask(true, size, root, false, k, size, nil, p)
			for _, k2 := range append(keys, []byte("foreign"), []byte{}) {
				ask(true, size, root, false, k2, size, ld(v), p)
				ask(true, size, root, false, k2, size, ld(val(k2)), p)
			}
			for _, x := range append([]int64{size + 1, size - 1, 1}, hugeSizes...) {
				ask(true, size, root, false, k, x, ld(v), p)
				ask(true, x, root, false, k, size, ld(v), p)
			}
			ask(true, size, root, true, k, size, ld(v), p)
			ask(true, size, root, true, k, 0, ld(v), p)
			ask(false, size, flip(s, root), false, k, size, ld(v), p)
			ask(false, size, nil, false, k, size, ld(v), p)
			ask(false, size, root[:31], false, k, size, ld(v), p)
			ask(false, size, append(append([]byte{}, root...), 0), false, k, size, ld(v), p)
			ask(false, size, leafHash(v), false, k, size, ld(v), nil)
			// lengths
			good(nil)
			good([][]byte{})
			good(p[:255])
			good(p[1:])
			good(append(cp(p), nil))
			good(append([][]byte{nil}, p...))
			good(append(cp(p), p...))
			good(make([][]byte, 257))
			good(make([][]byte, 256))
			good(make([][]byte, 8))
			// every element
			step := s.q(3, 1)
			for d := (ki + round) % step; d < 256; d += step {
				q := cp(p)
				if len(q[d]) == 0 {
					q[d] = leafHash([]byte{byte(d)})
					good(q)
					q = cp(p)
					q[d] = append([]byte{}, defs[d+1]...) // the same, spelled out
					good(q)
					if s.rng.Intn(8) == 0 {
						q = cp(p)
						q[d] = append([]byte{}, defs[d]...)
						good(q)
						q = cp(p)
						q[d] = []byte{0}
						good(q)
						q = cp(p)
						q[d] = defs[d+1][:31]
						good(q)
					}
				}
			}
			for d := range p {
				if len(p[d]) == 0 {
					continue
				}
				q := cp(p)
				q[d] = nil
				good(q)
				q = cp(p)
				q[d] = flip(s, p[d])
				good(q)
				q = cp(p)
				q[d] = p[d][:31]
				good(q)
				q = cp(p)
				q[d] = append(append([]byte{}, p[d]...), 0)
				good(q)
				q = cp(p)
				q[d] = append([]byte{}, defs[d+1]...)
				good(q)
				if d > 0 {
					q = cp(p)
					q[d], q[d-1] = q[d-1], q[d]
					good(q)
				}
				if d < 255 {
					q = cp(p)
					q[d], q[d+1] = q[d+1], q[d]
					good(q)
				}
			}
		}
	}
}
