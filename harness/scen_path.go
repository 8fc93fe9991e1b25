package main

import (
	"fmt"

	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() { scenarios["C29"] = scenPaths }

type pathRec struct {
	*Tr
	regs map[int]verifiable.BPath
	next int
}

// op computes a path, stores it (keep) and records it.
func (r *pathRec) op(keep bool, e Ev, f func() verifiable.BPath) int {
	reg := 0
	if keep {
		r.next++
		reg = r.next
	}
	var p verifiable.BPath
	var n int
	bits := []int{}
	str := ""
	c := guardErr(func() error {
		p = f()
		n = int(p.Length())
		if n > 300 {
			return nil
		}
		for i := 0; i < n; i++ {
			b := 0
			if p.At(uint(i)) {
				b = 1
			}
			bits = append(bits, b)
		}
		str = p.Str()
		return nil
	})
	if c != "OK" {
		n = -1
	}
	if keep {
		r.regs[reg] = p
	}
	e["ev"], e["reg"], e["len"], e["bits"], e["str"], e["enc"] = "path", reg, n, bits, str, hx(p)
	r.emit(e)
	return reg
}

func (r *pathRec) slice(keep bool, a, x, y int) int {
	return r.op(keep, Ev{"op": "slice", "a": a, "from": x, "to": y}, func() verifiable.BPath { return r.regs[a].Slice(uint(x), uint(y)) })
}

func (r *pathRec) join(keep bool, a, b int) int {
	return r.op(keep, Ev{"op": "join", "a": a, "b": b}, func() verifiable.BPath { return verifiable.BPathJoin(r.regs[a], r.regs[b]) })
}

func (r *pathRec) key(k []byte) int {
	return r.op(true, Ev{"op": "key", "key": hx(k)}, func() verifiable.BPath { return verifiable.BPathFromKey(k) })
}

func scenPaths(s *S) {
	rec := func() *pathRec { return &pathRec{Tr: newTrace(), regs: map[int]verifiable.BPath{}} }
	base := func(r *pathRec) (int, int, int) {
		return r.op(true, Ev{"op": "empty"}, func() verifiable.BPath { return verifiable.BPathEmpty }),
			r.op(true, Ev{"op": "false"}, func() verifiable.BPath { return verifiable.BPathFalse }),
			r.op(true, Ev{"op": "true"}, func() verifiable.BPath { return verifiable.BPathTrue })
	}
	// all short paths, all their slices, all joins of shorter ones
	r := rec()
	e, f, t := base(r)
	level := []int{e}
	var all [][]int
	for n := 1; n <= s.q(6, 9); n++ {
		var nx []int
		for _, p := range level {
			for _, b := range []int{f, t} {
				if s.rng.Intn(2) == 0 || n == 1 {
					nx = append(nx, r.join(true, p, b))
				} else {
					q := r.join(true, p, b) // and again the other way round
					r.join(false, e, q)
					nx = append(nx, q)
				}
			}
		}
		for _, p := range nx {
			for x := 0; x <= n; x++ {
				for y := 0; y <= n; y++ {
					if n <= 5 || s.rng.Intn(4) == 0 {
						r.slice(false, p, x, y)
					}
				}
			}
		}
		all = append(all, nx)
		level = nx
	}
	for i := 0; i < 4; i++ {
		for j := 0; j < 4 && i+j < 6; j++ {
			for _, a := range all[i] {
				for _, b := range all[j] {
					if i+j < 5 || s.rng.Intn(3) == 0 {
						r.join(false, a, b)
					}
				}
			}
		}
	}
	// full paths: slices and joins across byte edges, up to the full length
	for round := 0; round < s.q(8, 40); round++ {
		r := rec()
		e, f, t := base(r)
		k := r.key([]byte(fmt.Sprintf("key-%d", s.rng.Int())))
		ks := []int{k, r.key(nil), r.key([]byte{0}), r.key(s.keySet(1)[0])}
		edges := []int{0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 247, 248, 249, 254, 255, 256}
		for i := 0; i < 60; i++ {
			k := ks[s.rng.Intn(len(ks))]
			x, y := edges[s.rng.Intn(len(edges))], edges[s.rng.Intn(len(edges))]
			switch s.rng.Intn(3) {
			case 0:
				x = s.rng.Intn(257)
			case 1:
				y = s.rng.Intn(257)
			}
			r.slice(false, k, x, y)
		}
		for _, k := range ks {
			r.slice(false, k, 0, 256)
			r.join(false, k, e)
			r.join(false, e, k)
			for i := 0; i < 25; i++ { // cut in pieces and joined again, from either end
				x := edges[s.rng.Intn(len(edges))]
				if i%2 == 0 {
					x = s.rng.Intn(257)
				}
				a, b := r.slice(true, k, 0, x), r.slice(true, k, x, 256)
				r.join(false, a, b)
				o := ks[s.rng.Intn(len(ks))]
				r.join(false, r.slice(true, o, 0, x), b)
				r.join(false, b, a)
			}
		}
		// any two pieces whose bits are at most 256 together
		piece := func(n int) int {
			x := s.rng.Intn(257 - n)
			if s.rng.Intn(2) == 0 {
				x = x / 8 * 8
			}
			return r.slice(true, ks[s.rng.Intn(len(ks))], x, x+n)
		}
		for i := 0; i < s.q(60, 200); i++ {
			n := s.rng.Intn(257)
			switch i % 3 {
			case 0:
				n = edges[s.rng.Intn(len(edges))]
			case 1:
				n = s.rng.Intn(33) * 8
			}
			m := s.rng.Intn(257 - n)
			if s.rng.Intn(3) == 0 && m > 40 {
				m = s.rng.Intn(40)
			}
			a, b := piece(n), piece(m)
			r.join(false, a, b)
			r.join(false, b, a)
		}
		// one bit at a time
		p := e
		for i := 0; i < 256; i++ {
			b := f
			if s.rng.Intn(2) == 0 {
				b = t
			}
			if s.rng.Intn(4) == 0 {
				p = r.join(true, b, p)
			} else {
				p = r.join(true, p, b)
			}
			if i > 0 && s.rng.Intn(3) == 0 {
				x := s.rng.Intn(i + 1)
				r.slice(false, p, x, x+s.rng.Intn(i+2-x))
				r.slice(false, p, i, i+1)
				r.slice(false, p, 0, i+1)
			}
		}
	}
}
