package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	scenarios["C17"] = scenClient
	scenarios["C18"] = scenAudit
}

type lth = pb.LogTreeHashResponse

func lthRec(h *lth) Ev {
	if h == nil {
		return Ev{"n": -1, "root": ""}
	}
	return Ev{"n": clamp(h.TreeSize), "root": hx(h.RootHash)}
}

// cv records what a verifying client concludes.
type cv struct {
	*Tr
	seen  map[string]bool
	tried int
}

func newCV(lists ...[][]byte) *cv {
	v := &cv{Tr: newTrace(), seen: map[string]bool{}}
	ls := [][]string{}
	for _, l := range lists {
		ls = append(ls, hxs(l))
	}
	v.emit(Ev{"ev": "hist", "v": ls})
	return v
}

// say records an outcome once; refusals of false answers are only counted.
func (v *cv) say(e Ev) {
	v.tried++
	if e["code"] == "FAIL" && e["honest"] == 0 {
		return
	}
	b, err := json.Marshal(e)
	must(err)
	if !v.seen[string(b)] {
		v.seen[string(b)] = true
		v.emit(e)
	}
}

func (v *cv) done() { v.emit(Ev{"ev": "tried", "n": v.tried}) }

func askHead(log *verifiable.Log, held *lth, latest bool, want int64, honest int) (*lth, string) {
	if theJS != nil {
		return theJS.vhead(log, held, latest, want, honest)
	}
	return swift(func() (*lth, error) {
		if latest {
			return log.VerifiedLatestTreeHead(ctx, held)
		}
		return log.VerifiedTreeHead(ctx, held, want)
	})
}

// vhead asks for a verified head. ans, path: what the server answers (for the record)
func (v *cv) vhead(log *verifiable.Log, held *lth, latest bool, want int64, ans *lth, path [][]byte, honest, hs int) *lth {
	if theJS != nil && (theJS.skips(honest) || !jsSafe(held, ans)) {
		return nil
	}
	r, c := askHead(log, held, latest, want, honest)
	v.say(Ev{"ev": "vhead", "held": lthRec(held), "latest": latest, "want": clamp(want), "ans": lthRec(ans), "path": hxs(path), "honest": honest, "hs": hs,
		"code": c, "res": lthRec(r)})
	return r
}

func (v *cv) vcons(log *verifiable.Log, a, b *lth, path [][]byte, honest int) {
	var c string
	if theJS != nil {
		if theJS.skips(honest) || !jsSafe(a, b) {
			return
		}
		c = theJS.vcons(log, a, b, honest)
	} else {
		c = swiftErr(func() error { return log.VerifyConsistency(ctx, a, b) })
	}
	v.say(Ev{"ev": "vcons", "a": lthRec(a), "b": lthRec(b), "path": hxs(path), "honest": honest, "code": c})
}

func (v *cv) vincl(log *verifiable.Log, head *lth, leaf []byte, p *pb.LogInclusionProofResponse, honest int) {
	var c string
	if theJS != nil {
		if theJS.skips(honest) {
			return
		}
		c = theJS.vincl(log, head, leaf, honest)
	} else {
		c = swiftErr(func() error { return log.VerifyInclusion(ctx, head, leaf) })
	}
	v.say(Ev{"ev": "vincl", "head": lthRec(head), "leaf": hx(leaf), "i": clamp(p.GetLeafIndex()), "path": hxs(p.GetAuditPath()), "honest": honest, "code": c})
}

func (v *cv) vsupp(log *verifiable.Log, held *lth, p *pb.LogInclusionProofResponse, leaf []byte, ans *lth, path [][]byte, honest, hs int) {
	var r *lth
	var c string
	if theJS != nil {
		if theJS.skips(honest) || !jsSafe(held, ans) {
			return
		}
		r, c = theJS.vsupp(log, held, p, leaf, honest)
	} else {
		r, c = swift(func() (*lth, error) { return log.VerifySuppliedInclusionProof(ctx, held, p, leaf) })
	}
	v.say(Ev{"ev": "vsupp", "held": lthRec(held), "leaf": hx(leaf), "i": clamp(p.GetLeafIndex()), "pn": clamp(p.GetTreeSize()), "ipath": hxs(p.GetAuditPath()),
		"ans": lthRec(ans), "path": hxs(path), "honest": honest, "hs": hs, "code": c, "res": lthRec(r)})
}

func fork(n, at int, tag string) [][]byte {
	rv := leaves(n, "e")
	for i := at; i < n; i++ {
		rv[i] = leafHash([]byte(fmt.Sprint(tag, i)))
	}
	return rv
}

func headsOf(h [][]byte) []*lth {
	rv := []*lth{}
	for n := 0; n <= len(h); n++ {
		x, _ := trueHead(h[:n], 0)
		rv = append(rv, x)
	}
	return rv
}

func addPaths(ps *[][][]byte, seen map[string]bool, qs ...[][]byte) {
	for _, q := range qs {
		k := fmt.Sprintf("%x", q)
		if !seen[k] {
			seen[k] = true
			*ps = append(*ps, q)
		}
	}
}

func scenClient(s *S) {
	s.clientHonest()
	s.clientLies()
	s.clientChains()
}

// clientHonest: real services of all kinds, every held head and every size asked for, as the log grows.
func (s *S) clientHonest() {
	for _, c := range []struct {
		w WC
		n int
	}{{WC{}, s.q(12, 24)}, {WC{Backend: "bolt"}, 6}, {WC{Backend: "badger"}, 5}, {WC{Transport: "rest"}, s.q(5, 9)}, {WC{Transport: "grpc"}, s.q(5, 9)}} {
		w := newWorld(c.w)
		for _, lt := range []string{"log", "mut", "head"} {
			var h [][]byte
			o := logO
			cl := (&verifiable.Client{Service: w.cl}).Account("77", "key")
			o.Acc, o.Key = "77", "key"
			log := cl.VerifiableLog("clog")
			mp := cl.VerifiableMap("cmap-" + lt)
			if lt == "mut" {
				log = mp.MutationLog()
			} else if lt == "head" {
				log = mp.TreeHeadLog()
			}
			// grow first, remembering the heads; then ask at every stage of a second identical growth is not possible, so ask while growing
			type stage struct {
				held *lth
			}
			stages := []stage{{nil}}
			type q struct {
				held *lth
				want int64
				lat  bool
				hs   int
				res  *lth
				c    string
			}
			var qs []q
			ask := func(n int) {
				for _, st := range stages {
					for want := int64(-1); want <= int64(n)+1; want++ {
						r, c := askHead(log, st.held, false, want, 1)
						qs = append(qs, q{st.held, want, false, n, r, c})
					}
					r, c := askHead(log, st.held, true, 0, 1)
					qs = append(qs, q{st.held, 0, true, n, r, c})
				}
			}
			for n := 0; ; n++ {
				hd, err := log.TreeHead(ctx, 0)
				must2(err, "head")
				stages = append(stages, stage{hd})
				ask(n)
				if n == c.n {
					break
				}
				if lt == "log" {
					_, err := log.Add(ctx, &pb.LeafData{LeafInput: leaf(n)})
					must2(err, "add")
				} else {
					_, err := mp.Set(ctx, []byte(fmt.Sprint("k", n%3)), &pb.LeafData{LeafInput: leaf(n)})
					must2(err, "set")
				}
			}
			for e := range log.Entries(ctx, 0, int64(c.n)) {
				h = append(h, leafHash(e.GetLeafInput()))
			}
			v := newCV(h)
			for _, x := range qs {
				v.say(Ev{"ev": "vhead", "held": lthRec(x.held), "latest": x.lat, "want": clamp(x.want), "ans": lthRec(nil), "path": []string{}, "honest": 1, "hs": x.hs,
					"code": x.c, "res": lthRec(x.res)})
			}
			// two heads in either order, entries, supplied proofs
			for i, a := range stages {
				for _, b := range stages {
					if a.held == nil || b.held == nil {
						continue
					}
					v.vcons(log, a.held, b.held, nil, 1)
				}
				for j := range h {
					if a.held != nil && a.held.TreeSize > 0 {
						v.vincl(log, a.held, h[j], nil, 1)
						p, err := log.InclusionProof(ctx, a.held.TreeSize, h[j])
						if err != nil {
							continue
						}
						for k := 0; k < len(stages); k += 1 + (i+j)%3 {
							v.vsupp(log, stages[k].held, p, h[j], nil, nil, 1, c.n)
						}
					}
				}
			}
			v.done()
		}
		w.close()
	}
}

func must2(err error, what string) {
	if err != nil {
		// the real service failing an ordinary request: leave the judgement to the specification
		fmt.Println(what, err)
	}
}

// clientLies: every held head, every answered head, every proof.
func (s *S) clientLies() {
	N := s.q(7, 9)
	lists := [][][]byte{leaves(N, "e"), fork(N, 3, "b"), fork(N, 0, "c"), fork(N, 5, "d"), fork(N, N-1, "f")}
	v := newCV(lists...)
	var paths [][][]byte
	seen := map[string]bool{}
	addPaths(&paths, seen, nil)
	for _, l := range lists {
		for b := 1; b <= N; b++ {
			for a := 1; a < b; a++ {
				addPaths(&paths, seen, cproof(a, l[:b], true))
			}
		}
	}
	rnd := func(n int) []byte {
		b := make([]byte, n)
		s.rng.Read(b)
		return b
	}
	heads := []*lth{}
	for _, l := range lists {
		heads = append(heads, headsOf(l)...)
	}
	A := lists[0]
	for n := 1; n <= N; n++ {
		for _, d := range []int{-2, -1, 1, 2} {
			if n+d >= 0 {
				heads = append(heads, &lth{TreeSize: int64(n + d), RootHash: mth(A[:n])})
			}
		}
		heads = append(heads, &lth{TreeSize: int64(n), RootHash: rnd(32)}, &lth{TreeSize: int64(n)})
	}
	for _, x := range hugeSizes {
		heads = append(heads, &lth{TreeSize: x, RootHash: mth(A[:4])}, &lth{TreeSize: x})
	}
	heads = append(heads, &lth{TreeSize: 4, RootHash: mth(A[:4])[:31]}, &lth{TreeSize: 4, RootHash: append(mth(A[:4]), 0)}, &lth{TreeSize: 5, RootHash: rnd(31)}, &lth{})
	held := append([]*lth{nil}, headsOf(A[:N-1])...)
	held = append(held, headsOf(lists[1])[5], &lth{TreeSize: 4, RootHash: rnd(32)}, &lth{TreeSize: 4})
	var cur struct {
		head *lth
		path [][]byte
		lab  int
		err  bool
	}
	sv := &liar{
		onHead: func(q *pb.LogTreeHashRequest) (*lth, error) { return cur.head, nil },
		onCons: func(q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
			if cur.err {
				return nil, s.anErr()
			}
			r := &pb.LogConsistencyProofResponse{FromSize: q.FromSize, TreeSize: q.TreeSize, AuditPath: cur.path}
			switch cur.lab {
			case 1:
				r.FromSize, r.TreeSize = q.TreeSize, q.FromSize
			case 2:
				r.FromSize++
			case 3:
				r.TreeSize--
			case 4:
				r.FromSize, r.TreeSize = 0, 0
			}
			return r, nil
		},
	}
	log := logOf(sv, "log")
	for _, hd := range held {
		for _, an := range heads {
			cur.head = an
			ps := paths
			if hd != nil && hd.TreeSize >= 1 && hd.TreeSize != an.TreeSize && hd.TreeSize <= int64(N) && an.TreeSize >= 1 && an.TreeSize <= int64(N) {
				a, b := hd.TreeSize, an.TreeSize
				if a > b {
					a, b = b, a
				}
				ps = append(append([][][]byte{}, paths...), s.variants(cproof(int(a), A[:b], true), A)...)
			}
			for _, p := range ps {
				cur.path, cur.lab, cur.err = p, 0, false
				if s.rng.Intn(8) == 0 {
					cur.lab = 1 + s.rng.Intn(4)
				}
				v.vhead(log, hd, true, 0, an, p, 0, 0)
				v.vhead(log, hd, false, an.TreeSize, an, p, 0, 0)
				v.vhead(log, hd, false, []int64{0, 1, 3, 7, hd.GetTreeSize()}[s.rng.Intn(5)], an, p, 0, 0)
				if hd != nil {
					v.vcons(log, hd, an, p, 0)
					v.vcons(log, an, hd, p, 0)
				}
			}
			cur.err = true
			for range errKinds {
				v.vhead(log, hd, true, 0, an, nil, 0, 0)
				v.vhead(log, hd, false, an.TreeSize, an, nil, 0, 0)
				if hd != nil {
					v.vcons(log, hd, an, nil, 0)
					v.vcons(log, an, hd, nil, 0)
				}
			}
		}
	}
	v.done()

	// inclusion: true and other heads, all leaves, all proofs of all lists
	v = newCV(lists...)
	type lp struct {
		i int64
		p [][]byte
	}
	var proofs []lp
	seen = map[string]bool{}
	for _, l := range lists {
		for n := 1; n <= N; n++ {
			for i := 0; i < n; i++ {
				p := apath(i, l[:n])
				if k := fmt.Sprintf("%d %x", i, p); !seen[k] {
					seen[k] = true
					proofs = append(proofs, lp{int64(i), p})
				}
			}
		}
	}
	var ip *pb.LogInclusionProofResponse
	sv.onIncl = func(q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
		if ip == nil {
			return nil, s.anErr()
		}
		return ip, nil
	}
	pool := dedup(append(append(append([][]byte{}, lists[0]...), lists[1]...), mth(A[:2]), mth(A[:4]), rnd(32), nil))
	for _, hd := range append(headsOf(A), headsOf(lists[1])[N], &lth{TreeSize: 4, RootHash: rnd(32)}, &lth{TreeSize: 5, RootHash: mth(A[:4])}) {
		for _, lf := range pool {
			for _, p := range proofs {
				ip = &pb.LogInclusionProofResponse{LeafIndex: p.i, TreeSize: hd.TreeSize, AuditPath: p.p}
				if s.rng.Intn(10) == 0 {
					ip.TreeSize += int64(s.rng.Intn(3) - 1)
					ip.LeafIndex += int64(s.rng.Intn(5) - 2)
				}
				v.vincl(log, hd, lf, ip, 0)
			}
			ip = nil
			for range errKinds {
				v.vincl(log, hd, lf, nil, 0)
			}
		}
	}
	v.done()

	// supplied proofs: true ones and foreign ones, with any head answered
	v = newCV(lists...)
	for _, hd := range held {
		for _, an := range heads {
			for k := 0; k < s.q(60, 300); k++ {
				L := lists[s.rng.Intn(len(lists))]
				n := 1 + s.rng.Intn(N)
				if s.rng.Intn(2) == 0 && an.TreeSize >= 1 && an.TreeSize <= int64(N) {
					n = int(an.TreeSize)
				}
				i := s.rng.Intn(n)
				p := &pb.LogInclusionProofResponse{LeafIndex: int64(i), TreeSize: int64(n), AuditPath: apath(i, L[:n])}
				if s.rng.Intn(5) == 0 {
					p.TreeSize = an.TreeSize
				}
				lf := L[i]
				if s.rng.Intn(6) == 0 {
					lf = pool[s.rng.Intn(len(pool))]
				}
				cur.head, cur.path, cur.err, cur.lab = an, paths[s.rng.Intn(len(paths))], s.rng.Intn(9) == 0, 0
				if a, b := hd.GetTreeSize(), an.TreeSize; s.rng.Intn(3) > 0 && a >= 1 && b >= 1 && a != b && a <= int64(N) && b <= int64(N) {
					if a > b {
						a, b = b, a
					}
					cur.path = cproof(int(a), lists[s.rng.Intn(len(lists))][:b], true)
				}
				v.vsupp(log, hd, p, lf, an, cur.path, 0, 0)
			}
		}
	}
	v.done()
}

// clientChains: a client that goes on with what it accepted, with servers that grow, fork, roll back and mix at every step.
func (s *S) clientChains() {
	for tr := 0; tr < s.q(6, 20); tr++ {
		N := 20 + s.rng.Intn(60)
		lists := [][][]byte{leaves(N, "e")}
		for i := 0; i < 3; i++ {
			lists = append(lists, fork(N, s.rng.Intn(N), fmt.Sprint("x", i, "-")))
		}
		v := newCV(lists...)
		for run := 0; run < s.q(30, 100); run++ {
			var held *lth
			curList, size := 0, 1+s.rng.Intn(4)
			lie := 0
			pick := func() [][]byte {
				if lie > 0 && s.rng.Intn(lie) == 0 {
					return lists[s.rng.Intn(len(lists))]
				}
				return lists[curList]
			}
			sv := &liar{
				onHead: func(q *pb.LogTreeHashRequest) (*lth, error) { return trueHead(pick()[:size], q.TreeSize) },
				onCons: func(q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
					return trueCons(pick(), q)
				},
			}
			log := logOf(sv, "log")
			honest := true // so far everything came from list curList
			for step := 0; step < 25; step++ {
				switch s.rng.Intn(6) {
				case 0, 1, 2:
					size += s.rng.Intn(5)
				case 3:
					if s.rng.Intn(3) == 0 {
						curList, honest = s.rng.Intn(len(lists)), false
					}
				case 4:
					if s.rng.Intn(2) == 0 {
						size, honest = 1+s.rng.Intn(size), false
					}
				case 5:
					lie = s.rng.Intn(4)
					honest = honest && lie == 0
				}
				if size > N {
					size = N
				}
				latest := s.rng.Intn(2) == 0
				want := int64(s.rng.Intn(size + 2))
				hon, hs := 0, 0
				if honest {
					hon, hs = curList+1, size
				}
				if r := v.vhead(log, held, latest, want, &lth{TreeSize: -2}, nil, hon, hs); r != nil {
					held = r
				}
			}
		}
		v.done()
	}
}

// C18

type av struct{ *Tr }

var errStop = errors.New("stop")

// audit runs an audit and records it. honest: list number, when the server answers as it should
func (v *av) audit(sv *liar, prev, head *lth, stop int, nocb bool, honest int) {
	if theJS != nil && (theJS.skips(honest) || head == nil) {
		return
	}
	var deliv []string
	fetch := sv.onFetch
	x := *sv
	x.onFetch = func(q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
		r, err := fetch(q)
		if err == nil {
			for _, e := range r.Values {
				deliv = append(deliv, hx(leafHash(e.GetLeafInput())))
			}
		}
		return r, err
	}
	cbs := [][2]any{}
	cb := func(_ context.Context, idx int64, e *pb.LeafData) error {
		cbs = append(cbs, [2]any{clamp(idx), hx(leafHash(e.GetLeafInput()))})
		if len(cbs) == stop {
			return errStop
		}
		return nil
	}
	if nocb {
		cb = nil
	}
	var c string
	if theJS != nil {
		cbs, c = theJS.audit(logOf(&x, "log"), prev, head, stop, honest)
		nocb = false
	} else {
		c = guardErr(func() error { return logOf(&x, "log").VerifyEntries(ctx, prev, head, cb) })
	}
	if deliv == nil {
		deliv = []string{}
	}
	e := Ev{"ev": "audit", "prev": lthRec(prev), "head": lthRec(head), "cbs": cbs, "stop": stop, "nocb": nocb, "honest": honest, "code": c}
	if nocb {
		e["deliv"] = deliv
	}
	v.emit(e)
}

// how a server hands out entries: at most max per answer, over more than asked for, failing at the k-th answer
func handOut(es []*pb.LeafData, max, over, failAt int, emptyAt int) func(*pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	k := 0
	return func(q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
		k++
		if k == failAt {
			return nil, errLiar
		}
		if k == emptyAt {
			return &pb.LogFetchEntriesResponse{}, nil
		}
		a, b := q.First, q.Last
		if a < 0 || a > int64(len(es)) {
			return nil, errRange
		}
		if max > 0 && b > a+int64(max) {
			b = a + int64(max)
		}
		b += int64(over)
		if b > int64(len(es)) {
			b = int64(len(es))
		}
		if b < a {
			b = a
		}
		return &pb.LogFetchEntriesResponse{Values: es[a:b]}, nil
	}
}

func entriesOf(n int, tag string) []*pb.LeafData {
	rv := []*pb.LeafData{}
	for i := 0; i < n; i++ {
		rv = append(rv, &pb.LeafData{LeafInput: []byte(fmt.Sprint(tag, i)), ExtraData: []byte("x")})
	}
	return rv
}

func scenAudit(s *S) {
	proofOf := func(h [][]byte) func(*pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
		return func(q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) { return trueIncl(h, q) }
	}
	at := func(h [][]byte, n int) *lth {
		if n < 0 {
			return nil
		}
		return &lth{TreeSize: int64(n), RootHash: mth(h[:n])}
	}
	run := func(es []*pb.LeafData, pairs [][2]int, full bool) {
		v := &av{newTrace()}
		N := len(es)
		h := hashesOf(es)
		bs := append([]*pb.LeafData{}, es...)
		fk := N / 2
		for i := fk; i < N; i++ {
			bs[i] = &pb.LeafData{LeafInput: []byte(fmt.Sprint("fork", i))}
		}
		hb := hashesOf(bs)
		v.emit(Ev{"ev": "hist", "v": [][]string{hxs(h), hxs(hb)}})
		for _, pr := range pairs {
			m, n := pr[0], pr[1] // m -1: nothing held
			prev, head := at(h, m), at(h, n)
			from := m
			if m < 0 {
				from = 0
			}
			honest := 1
			// true servers, in batches of any size
			for _, max := range []int{0, 1, 2, 3, 7, 499, 500, 501} {
				if max > 7 && N < 400 || max > 0 && max < 4 && N > 400 {
					continue
				}
				hon := honest
				if theJS != nil && max > 0 && max < n-from {
					hon = 0 // the JavaScript client asks once
				}
				v.audit(&liar{onIncl: proofOf(h), onFetch: handOut(es, max, 0, 0, 0)}, prev, head, 0, false, hon)
			}
			v.audit(&liar{onIncl: proofOf(h), onFetch: handOut(es, 0, 0, 0, 0)}, prev, head, 0, true, honest)
			if n <= from || n == 0 {
				continue
			}
			// the callback does not like an entry
			for _, st := range []int{1, 2, n - from, (n - from) / 2} {
				if st >= 1 && st <= n-from {
					v.audit(&liar{onIncl: proofOf(h), onFetch: handOut(es, 0, 0, 0, 0)}, prev, head, st, false, 0)
				}
			}
			try := func(f func(*pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error), p func(*pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error), a, b *lth) {
				v.audit(&liar{onIncl: p, onFetch: f}, a, b, 0, s.rng.Intn(12) == 0, 0)
			}
			std := handOut(es, 0, 0, 0, 0)
			// answers of the wrong shape
			for _, f := range []func(*pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error){
				handOut(es, 0, 1, 0, 0), handOut(es, 2, 2, 0, 0), handOut(es, 0, 3, 0, 0), handOut(es, 0, 0, 1, 0), handOut(es, 1, 0, 2, 0), handOut(es, 2, 0, 3, 0),
				handOut(es, 0, 0, 0, 1), handOut(es, 1, 0, 0, 2), handOut(es, 3, 0, 0, 2), handOut(es[:n-1], 0, 0, 0, 0), handOut(es[:n-1], 1, 0, 0, 0), handOut(es, 1, 1, 0, 0)} {
				try(f, proofOf(h), prev, head)
			}
			// altered entries
			alter := func(f func([]*pb.LeafData) []*pb.LeafData) {
				x := f(append([]*pb.LeafData{}, es...))
				try(handOut(x, 0, 0, 0, 0), proofOf(h), prev, head)
				if s.rng.Intn(3) == 0 {
					try(handOut(x, 1+s.rng.Intn(3), 0, 0, 0), proofOf(h), prev, head)
				}
			}
			idx := []int{from, from + 1, n - 1, (from + n) / 2}
			if full {
				idx = nil
				for i := from; i < n; i++ {
					idx = append(idx, i)
				}
			}
			for _, i := range idx {
				if i < from || i >= n {
					continue
				}
				alter(func(x []*pb.LeafData) []*pb.LeafData { return append(x[:i], x[i+1:]...) }) // left out
				alter(func(x []*pb.LeafData) []*pb.LeafData {
					return append(x[:i+1], append([]*pb.LeafData{x[i]}, x[i+1:]...)...)
				}) // twice
				alter(func(x []*pb.LeafData) []*pb.LeafData {
					x[i] = &pb.LeafData{LeafInput: flip(s, x[i].LeafInput)}
					return x
				}) // altered
				alter(func(x []*pb.LeafData) []*pb.LeafData { x[i] = nil; return x })                                     // nothing
				alter(func(x []*pb.LeafData) []*pb.LeafData { x[i] = &pb.LeafData{ExtraData: x[i].LeafInput}; return x }) // moved
				alter(func(x []*pb.LeafData) []*pb.LeafData { x[i] = bs[i]; return x })                                   // of the fork
				alter(func(x []*pb.LeafData) []*pb.LeafData {                                                             // inserted
					return append(x[:i:i], append([]*pb.LeafData{{LeafInput: []byte("new")}}, x[i:]...)...)
				})
				j := idx[s.rng.Intn(len(idx))]
				if j >= from && j < n {
					alter(func(x []*pb.LeafData) []*pb.LeafData { x[i], x[j] = x[j], x[i]; return x }) // exchanged
				}
				if i%2 == 0 && i+1 < n && i+1 < len(es) { // an inner node in place of two leaves
					alter(func(x []*pb.LeafData) []*pb.LeafData {
						x[i] = &pb.LeafData{LeafInput: append([]byte{1}, append(append([]byte{}, h[i]...), h[i+1]...)...)}
						return append(x[:i+1], x[i+2:]...)
					})
				}
			}
			// wrong heads
			for _, hd := range []*lth{at(hb, n), {TreeSize: int64(n), RootHash: flip(s, head.RootHash)}, {TreeSize: int64(n)}, {TreeSize: int64(n), RootHash: head.RootHash[:31]}} {
				try(std, proofOf(h), prev, hd)
				try(handOut(bs, 0, 0, 0, 0), proofOf(hb), prev, hd)
				try(handOut(bs, 0, 0, 0, 0), proofOf(h), prev, hd)
			}
			if m >= 1 {
				for _, pv := range []*lth{at(hb, m), {TreeSize: int64(m), RootHash: flip(s, prev.RootHash)}, {TreeSize: int64(m)}, {TreeSize: int64(m), RootHash: prev.RootHash[:31]}} {
					try(std, proofOf(h), pv, head)
					try(std, proofOf(hb), pv, head)
					try(handOut(bs, 0, 0, 0, 0), proofOf(hb), pv, head)
					try(handOut(bs, 0, 0, 0, 0), proofOf(hb), pv, at(hb, n))
				}
				// wrong start
				p := apath(m, append(append([][]byte{}, h[:m]...), leafHash([]byte("z"))))
				vs := s.variants(p, h)
				for i := 0; i < m && i < 40; i++ {
					vs = append(vs, apath(i, h[:m]))
					vs = append(vs, apath(m, append(append([][]byte{}, hb[:m]...), h[m])))
				}
				if m == n-1 || m+1 < n {
					vs = append(vs, append([][]byte{h[m]}, p...), [][]byte{prev.RootHash}, [][]byte{prev.RootHash, nil})
				}
				for i, q := range vs {
					if i == 0 && fmt.Sprint(q) == fmt.Sprint(p) || !full && i%4 != 0 {
						continue
					}
					q := q
					f := func(*pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
						return &pb.LogInclusionProofResponse{LeafIndex: int64(m), TreeSize: int64(m + 1), AuditPath: q}, nil
					}
					try(std, f, prev, head)
				}
				for _, x := range errKinds {
					x := x
					no := func(*pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) { return nil, x }
					try(std, no, prev, head)
					if full {
						try(std, no, at(hb, m), head)
						try(handOut(bs, 0, 0, 0, 0), no, prev, at(hb, n))
					}
				}
			}
			if full {
				for _, x := range errKinds {
					v.audit((&liar{onIncl: proofOf(h), onFetch: handOut(es, 1+s.rng.Intn(3), 0, 0, 0)}).failing(1+s.rng.Intn(5), s.rng.Intn(2) == 0, x), prev, head, 0, s.rng.Intn(8) == 0, 0)
				}
			}
			v.audit(&liar{onIncl: proofOf(h), onFetch: std}, prev, nil, 0, false, 0)
		}
	}
	N := s.q(10, 18)
	var pairs [][2]int
	for n := 0; n <= N; n++ {
		for m := -1; m <= n; m++ {
			pairs = append(pairs, [2]int{m, n})
		}
	}
	run(entriesOf(N+4, "e"), pairs, true)
	pairs = nil
	for i := 0; i < s.q(8, 40); i++ {
		n := 16 + s.rng.Intn(30)
		pairs = append(pairs, [2]int{s.rng.Intn(n+1) - 1, n})
	}
	pairs = append(pairs, [2]int{31, 33}, [2]int{32, 33}, [2]int{33, 40}, [2]int{15, 16}, [2]int{16, 32})
	run(entriesOf(46, "e"), pairs, false)
	big := [][2]int{{-1, 1001}, {499, 1000}, {1, 502}}
	if s.thorough {
		big = append(big, [2]int{0, 500}, [2]int{-1, 501}, [2]int{500, 1001}, [2]int{501, 1002}, [2]int{512, 1003})
	}
	run(entriesOf(1004, "e"), big, false)
	s.auditReal()
}

// auditReal audits real services between all heads they had.
func (s *S) auditReal() {
	for _, c := range []struct {
		w WC
		n int
	}{{WC{}, s.q(14, 30)}, {WC{Backend: "bolt"}, 7}, {WC{Transport: "rest"}, 7}, {WC{Transport: "grpc"}, 7}} {
		w := newWorld(c.w)
		for _, lt := range []string{"log", "mut", "head"} {
			cl := (&verifiable.Client{Service: w.cl}).Account("77", "key")
			log := cl.VerifiableLog("clog")
			mp := cl.VerifiableMap("cmap-" + lt)
			if lt == "mut" {
				log = mp.MutationLog()
			} else if lt == "head" {
				log = mp.TreeHeadLog()
			}
			hs := []*lth{nil}
			for i := 0; i <= c.n; i++ {
				hd, err := log.TreeHead(ctx, 0)
				must2(err, "head")
				hs = append(hs, hd)
				if lt == "log" {
					log.Add(ctx, &pb.LeafData{LeafInput: leaf(i), ExtraData: []byte("x")})
				} else {
					mp.Set(ctx, []byte(fmt.Sprint("k", i%3)), &pb.LeafData{LeafInput: leaf(i)})
				}
			}
			var h [][]byte
			for e := range log.Entries(ctx, 0, int64(c.n)) {
				h = append(h, leafHash(e.GetLeafInput()))
			}
			v := &av{newTrace()}
			v.emit(Ev{"ev": "hist", "v": [][]string{hxs(h)}})
			for _, a := range hs {
				for _, b := range hs[1:] {
					cbs := [][2]any{}
					var c string
					if theJS != nil {
						cbs, c = theJS.audit(log, a, b, 0, 1)
					} else {
						c = guardErr(func() error {
							return log.VerifyEntries(ctx, a, b, func(_ context.Context, idx int64, e *pb.LeafData) error {
								cbs = append(cbs, [2]any{clamp(idx), hx(leafHash(e.GetLeafInput()))})
								return nil
							})
						})
					}
					v.emit(Ev{"ev": "audit", "prev": lthRec(a), "head": lthRec(b), "cbs": cbs, "stop": 0, "nocb": false, "honest": 1, "code": c})
				}
			}
		}
		w.close()
	}
}
