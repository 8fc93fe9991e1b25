package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"golang.org/x/text/unicode/norm"
	"net/http"
	"strings"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

// The JavaScript client in place of the Go client.

func init() {
	scenarios["C30"] = scenJSLog
	scenarios["C31map"] = scenJSMap
	scenarios["C31json"] = scenJSJson
}

func scenJSLog(s *S) {
	useJS(s, s.q(14, 3))
	s.clientHonest()
	s.clientLies()
	s.clientChains()
	theJS.keep = s.q(3, 1)
	scenAudit(s)
	s.jsBig()
	s.jsShort()
	s.jsReads()
	s.jsWait()
	s.jsWhy()
	s.jsMangledLog()
}

// jsBig: sizes that do not fit 32 bits, with the proofs of the small ones that they look like.
func (s *S) jsBig() {
	N := 9
	h := leaves(N, "e")
	v := newCV(h)
	keep := theJS.keep
	theJS.keep = 1
	var ans *lth
	var path [][]byte
	var ip *pb.LogInclusionProofResponse
	log := logOf(&liar{
		onHead: func(*pb.LogTreeHashRequest) (*lth, error) { return ans, nil },
		onCons: func(q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
			return &pb.LogConsistencyProofResponse{FromSize: q.FromSize, TreeSize: q.TreeSize, AuditPath: path}, nil
		},
		onIncl: func(q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) { return ip, nil },
	}, "log")
	for _, base := range []int64{1 << 31, 1 << 32, 3 << 32, 1 << 40, 1 << 51} {
		for n := 1; n <= N; n++ {
			for d := int64(-1); d <= 1; d++ {
				ans = &lth{TreeSize: base + int64(n) + d, RootHash: mth(h[:n])}
				for m := 1; m <= n; m++ {
					path = nil
					if m < n {
						path = cproof(m, h[:n], true)
					}
					held := &lth{TreeSize: int64(m), RootHash: mth(h[:m])}
					v.vhead(log, held, true, 0, ans, path, 0, 0)
					v.vhead(log, held, false, ans.TreeSize, ans, path, 0, 0)
					v.vcons(log, held, ans, path, 0)
					v.vcons(log, ans, held, path, 0)
				}
				for i := 0; i < n; i++ {
					for _, j := range []int64{int64(i), int64(i) + base, int64(i) - base} {
						ip = &pb.LogInclusionProofResponse{LeafIndex: j, TreeSize: ans.TreeSize, AuditPath: apath(i, h[:n])}
						v.vincl(log, ans, h[i], ip, 0)
						v.vsupp(log, nil, ip, h[i], ans, nil, 0, 0)
					}
				}
			}
		}
	}
	theJS.keep = keep
	v.done()
}

// jsShort: every combination of sizes and indices with every short path, most of them not proofs of anything.
func (s *S) jsShort() {
	N := 5
	lists := [][][]byte{leaves(N, "e"), fork(N, 2, "b")}
	v := newCV(lists...)
	keep := theJS.keep
	theJS.keep = s.q(4, 1)
	h := lists[0]
	var ans *lth
	var path [][]byte
	var ip *pb.LogInclusionProofResponse
	log := logOf(&liar{
		onHead: func(*pb.LogTreeHashRequest) (*lth, error) { return ans, nil },
		onCons: func(q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
			return &pb.LogConsistencyProofResponse{FromSize: q.FromSize, TreeSize: q.TreeSize, AuditPath: path}, nil
		},
		onIncl: func(q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) { return ip, nil },
	}, "log")
	for n := 0; n <= N; n++ {
		uni := dedup([][]byte{h[0], h[n%N], mth(h[:2]), mth(h[:max(n, 1)]), mth(lists[1][:max(n, 1)])})
		eachPath(uni, 3, func(p [][]byte) {
			p = cp(p)
			if len(p) == 3 && s.rng.Intn(4) > 0 {
				return
			}
			for i := int64(-2); i <= int64(n)+1; i++ {
				hd := &lth{TreeSize: int64(n), RootHash: mth(h[:max(n, 1)])}
				lf := uni[s.rng.Intn(len(uni))]
				ip = &pb.LogInclusionProofResponse{LeafIndex: i, TreeSize: int64(n), AuditPath: p}
				v.vincl(log, hd, lf, ip, 0)
				ans = hd
				v.vsupp(log, nil, ip, lf, ans, nil, 0, 0)
			}
			for m := 1; m <= n; m++ {
				path = p
				for _, l := range lists {
					ans = &lth{TreeSize: int64(n), RootHash: mth(l[:n])}
					held := &lth{TreeSize: int64(m), RootHash: mth(h[:m])}
					v.vhead(log, held, true, 0, ans, path, 0, 0)
					v.vcons(log, held, ans, path, 0)
				}
				ans = &lth{TreeSize: int64(n), RootHash: uni[s.rng.Intn(len(uni))]}
				v.vhead(log, &lth{TreeSize: int64(m), RootHash: mth(h[:m])}, false, int64(n), ans, path, 0, 0)
			}
		})
	}
	theJS.keep = keep
	v.done()
}

func (e jsEntry) got() [3]any { return [3]any{e.I, e.D, e.LH} }

// jsReads: entries added and read through real services.
func (s *S) jsReads() {
	for _, c := range []WC{{}, {Transport: "grpc"}} {
		w := newWorld(c)
		log := (&verifiable.Client{Service: w.cl}).Account("77", "key").VerifiableLog("jlog")
		var evs []Ev
		var h [][]byte
		n := s.q(12, 40)
		for i := 0; i < n; i++ {
			b := s.bytes()
			if i < 4 {
				b = [][]byte{{}, {0}, []byte("hello"), {0xc3, 0xa9, 0xff, 0x80}}[i]
			}
			h = append(h, leafHash(b))
			var r jsEntry
			c, _, _ := theJS.op(w.cl, true, theJS.obj("add", log.Log, Ev{"e": Ev{"f": "raw", "b": hx(b)}}), &r)
			evs = append(evs, Ev{"ev": "added", "code": c, "li": hx(b), "lh": r.LH, "own": r.Own})
		}
		// (a repeated entry is not added again)
		h = dedup(h)
		n = len(h)
		for i := 0; i <= n+1; i++ {
			got := []jsEntry{}
			c, _, _ := theJS.op(w.cl, true, theJS.obj("entry", log.Log, Ev{"i": i, "f": "raw"}), &got)
			g := [][3]any{}
			for _, x := range got {
				x.I = i
				g = append(g, x.got())
			}
			evs = append(evs, Ev{"ev": "read", "honest": 1, "first": i, "last": i + 1, "code": c, "got": g})
			for j := i + 1; j <= n; j++ {
				if s.rng.Intn(3) > 0 && !s.thorough {
					continue
				}
				got := []jsEntry{}
				c, _, _ := theJS.op(w.cl, true, theJS.obj("entries", log.Log, Ev{"i": i, "j": j, "f": "raw"}), &got)
				g := [][3]any{}
				for _, x := range got {
					g = append(g, x.got())
				}
				evs = append(evs, Ev{"ev": "read", "honest": 1, "first": i, "last": j, "code": c, "got": g})
			}
		}
		v := newCV(h)
		for _, e := range evs {
			v.emit(e)
		}
		for want := int64(0); want <= int64(n)+1; want++ {
			var r *jsHeadRec
			c, _, _ := theJS.op(w.cl, true, theJS.obj("head", log.Log, Ev{"want": want}), &r)
			v.say(Ev{"ev": "vhead", "held": lthRec(nil), "latest": false, "want": want, "ans": lthRec(nil), "path": []string{}, "honest": 1, "hs": n, "code": c, "res": lthRec(r.lth())})
		}
		w.close()
	}
}

// jsWait: waiting for an entry while the log grows, is found out of date, or is lied about.
func (s *S) jsWait() {
	N := 12
	for run := 0; run < s.q(120, 800); run++ {
		lists := [][][]byte{leaves(N, "e"), fork(N, 1+s.rng.Intn(N-1), "b")}
		h := lists[0]
		v := newCV(lists...)
		p := s.rng.Intn(N)
		lies := s.rng.Intn(3) == 0
		size, polls, shown := s.rng.Intn(p+2), 0, false
		stop := -1
		if s.rng.Intn(4) == 0 {
			stop = s.rng.Intn(N) // never grows beyond
		}
		best := -1
		var last *lth
		var lastP *pb.LogInclusionProofResponse
		sv := &liar{
			onHead: func(q *pb.LogTreeHashRequest) (*lth, error) {
				polls++
				if polls > 1 && s.rng.Intn(3) > 0 {
					size = min(N, size+s.rng.Intn(3))
				}
				if stop >= 0 {
					size = min(size, stop)
				}
				n := size
				if s.rng.Intn(4) == 0 {
					n = s.rng.Intn(size + 1) // out of date
				}
				if n > best {
					best = n
					shown = shown || n > p
				}
				l := h
				if lies && s.rng.Intn(2) == 0 {
					l = lists[1]
				}
				last, _ = trueHead(l[:n], 0)
				return last, nil
			},
			onIncl: func(q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
				r, err := trueIncl(h, q)
				if err == nil && lies && s.rng.Intn(2) == 0 {
					vs := s.variants(r.AuditPath, h)
					r.AuditPath = vs[s.rng.Intn(len(vs))]
					r.LeafIndex = int64(s.rng.Intn(N + 1))
				}
				lastP = r
				return r, err
			},
		}
		var r *jsHeadRec
		log := logOf(sv, "log")
		c, _, _ := theJS.op(sv, !lies, theJS.obj("block", log.Log, Ev{"leaf": hx(h[p]), "steps": 150}), &r)
		honest := 1
		if lies {
			honest = 0
		}
		v.emit(Ev{"ev": "wait", "leaf": hx(h[p]), "code": c, "res": lthRec(r.lth()), "i": clamp(lastP.GetLeafIndex()), "path": hxs(lastP.GetAuditPath()), "honest": honest, "shown": shown})
	}
}

// jsWhy: refused requests and lost connections, and what the client says of them.
func (s *S) jsWhy() {
	h := leaves(6, "e")
	v := newCV(h)
	log := logOf(truthful(func() [][]byte { return h }), "log")
	mp := mapOf(log.Service)
	hd := func(n int) Ev { return Ev{"n": n, "r": hx(mth(h[:n]))} }
	st := Ev{"r": hx(leafHash(nil)), "m": hd(3), "t": hd(3)}
	mk := []func() Ev{
		func() Ev { return theJS.obj("vhead", log.Log, Ev{"held": nil, "latest": true, "want": 0}) },
		func() Ev { return theJS.obj("vhead", log.Log, Ev{"held": hd(2), "latest": false, "want": 4}) },
		func() Ev { return theJS.obj("head", log.Log, Ev{"want": 0}) },
		func() Ev { return theJS.obj("vcons", log.Log, Ev{"a": hd(2), "b": hd(5)}) },
		func() Ev { return theJS.obj("vincl", log.Log, Ev{"head": hd(4), "leaf": hx(h[1])}) },
		func() Ev {
			return theJS.obj("vsupp", log.Log, Ev{"held": nil, "leaf": hx(h[1]), "pn": 4, "i": 1, "path": jsPath(apath(1, h[:4]))})
		},
		func() Ev {
			return theJS.obj("audit", log.Log, Ev{"prev": hd(2), "head": hd(4), "stop": 0, "f": "raw"})
		},
		func() Ev {
			return theJS.obj("audit", log.Log, Ev{"prev": nil, "head": hd(4), "stop": 0, "f": "raw"})
		},
		func() Ev { return theJS.obj("entry", log.Log, Ev{"i": 1, "f": "raw"}) },
		func() Ev { return theJS.obj("entries", log.Log, Ev{"i": 1, "j": 3, "f": "raw"}) },
		func() Ev { return theJS.obj("add", log.Log, Ev{"e": Ev{"f": "raw", "b": "6162"}}) },
		func() Ev { return theJS.obj("block", log.Log, Ev{"leaf": hx(h[1])}) },
		func() Ev { return theJS.mobj("set", mp, Ev{"k": "61", "e": Ev{"f": "raw", "b": "62"}}) },
		func() Ev { return theJS.mobj("del", mp, Ev{"k": "61"}) },
		func() Ev { return theJS.mobj("mhead", mp, Ev{"want": 2}) },
		func() Ev { return theJS.mobj("mblock", mp, Ev{"want": 2}) },
		func() Ev { return theJS.mobj("vstate", mp, Ev{"held": nil, "latest": true, "want": 0}) },
		func() Ev { return theJS.mobj("vstate", mp, Ev{"held": st, "latest": false, "want": 5}) },
		func() Ev { return theJS.mobj("vget", mp, Ev{"held": st, "k": "61", "f": "raw"}) },
	}
	for _, status := range []int{0, 400, 401, 403, 404, 409, 500, 502, 503} {
		theJS.edit = func(_ *http.Request, r *httpReply) { *r = httpReply{Status: status} }
		for _, f := range mk {
			c, why, _ := theJS.op(log.Service, true, f(), nil)
			v.emit(Ev{"ev": "why", "status": status, "code": c, "reason": why})
		}
	}
	theJS.edit = nil
}

// mangle alters an answer as one would who does not keep to the interface.
func (s *S) mangle(r *httpReply) {
	b, err := hex.DecodeString(r.B)
	must(err)
	var m any
	if s.rng.Intn(5) == 0 || json.Unmarshal(b, &m) != nil {
		switch s.rng.Intn(5) {
		case 0:
			b = b[:s.rng.Intn(len(b)+1)]
		case 1:
			b = nil
		case 2:
			b = []byte([]string{"null", "[]", "{}", "0", "\"\"", "true", "<html>"}[s.rng.Intn(7)])
		case 3:
			r.Status = []int{200, 201, 204, 206, 301, 304}[s.rng.Intn(6)]
		case 4:
			for _, k := range []string{"x-verified-treesize", "x-verified-proof"} {
				switch s.rng.Intn(4) {
				case 0:
					delete(r.H, k)
				case 1:
					r.H[k] = []string{""}
				case 2:
					r.H[k] = []string{[]string{"0", "x", "-1", "1e1", "null", "/", "0/", "/00", "255/zz", "300/" + hx(leafHash(nil))}[s.rng.Intn(10)]}
				}
			}
		}
		r.B = hx(b)
		return
	}
	odd := func() any {
		return []any{nil, "", "x", 0, -1, 1, 2.5, "3", 1e300, []any{}, map[string]any{}, true, []any{""}, strings.Repeat("A", 44)}[s.rng.Intn(14)]
	}
	var hit func(m any) any
	hit = func(m any) any {
		switch x := m.(type) {
		case map[string]any:
			ks := sortedKeys(x)
			if len(ks) > 0 {
				k := ks[s.rng.Intn(len(ks))]
				switch s.rng.Intn(4) {
				case 0:
					delete(x, k)
				case 1:
					x[k] = odd()
				default:
					x[k] = hit(x[k])
				}
				return x
			}
		case []any:
			if len(x) > 0 {
				i := s.rng.Intn(len(x))
				switch s.rng.Intn(4) {
				case 0:
					return append(x[:i], x[i+1:]...)
				case 1:
					return append(x, x[i])
				default:
					x[i] = hit(x[i])
				}
				return x
			}
		}
		return odd()
	}
	b, err = json.Marshal(hit(m))
	must(err)
	r.B = hx(b)
}

// mangling alters the answers to some requests.
func (s *S) mangling(one int) func(*http.Request, *httpReply) {
	return func(_ *http.Request, r *httpReply) {
		if s.rng.Intn(one) == 0 {
			s.mangle(r)
		}
	}
}

func (s *S) jsMangledLog() {
	N := 7
	lists := [][][]byte{leaves(N, "e"), fork(N, 3, "b")}
	h := lists[0]
	v := newCV(lists...)
	a := &av{v.Tr}
	keep := theJS.keep
	theJS.keep = 1
	es := entriesOf(N, "e")
	heads := headsOf(h)
	all := append(headsOf(lists[1])[4:], heads[1:]...)
	theJS.edit = s.mangling(2)
	for i := 0; i < s.q(4000, 40000); i++ {
		sv := truthful(func() [][]byte { return h[:1+s.rng.Intn(N)] })
		if s.rng.Intn(2) == 0 {
			sv = truthful(func() [][]byte { return h })
		}
		sv.onFetch = handOut(es, 0, 0, 0, 0)
		log := logOf(sv, "log")
		held := all[s.rng.Intn(len(all))]
		b := all[s.rng.Intn(len(all))]
		lf := h[s.rng.Intn(N)]
		unknown := &lth{TreeSize: -2}
		switch s.rng.Intn(5) {
		case 0:
			v.vhead(log, held, s.rng.Intn(2) == 0, int64(s.rng.Intn(N+1)), unknown, nil, 0, 0)
		case 1:
			v.vcons(log, held, b, nil, 0)
		case 2:
			if s.rng.Intn(2) == 0 {
				lf = leafHash([]byte("no"))
			}
			v.vincl(log, held, lf, nil, 0)
		case 3:
			n := 1 + s.rng.Intn(N)
			k := s.rng.Intn(n)
			v.vsupp(log, held, &pb.LogInclusionProofResponse{LeafIndex: int64(k), TreeSize: int64(n), AuditPath: apath(k, h[:n])}, h[k], unknown, nil, 0, 0)
		case 4:
			a.audit(sv, held, b, 0, false, 0)
		}
	}
	theJS.edit = nil
	theJS.keep = keep
	v.done()
}

func scenJSMap(s *S) {
	useJS(s, s.q(5, 1))
	scenMapState(s)
	s.jsMapReal()
	s.jsMangledMap()
}

// jsMapReal: a map written and read through the client.
func (s *S) jsMapReal() {
	for _, c := range []WC{{}, {Backend: "bolt"}} {
		w := newWorld(c)
		keys := s.keySet(4)
		for i, k := range keys {
			if len(k) == 0 {
				keys[i] = []byte("k")
			}
		}
		mp := (&verifiable.Client{Service: w.cl}).Account("77", "key").VerifiableMap("jmap")
		var evs []Ev
		n := s.q(10, 24)
		for i := 0; i <= n; i++ {
			for want := 0; want <= i+1; want++ {
				var r struct {
					R string
					M jsHeadRec
				}
				c, _, _ := theJS.op(w.cl, true, theJS.mobj("mhead", mp, Ev{"want": want}), &r)
				evs = append(evs, Ev{"ev": "mhead", "honest": 1, "hs": i, "want": want, "code": c, "root": r.R, "ms": clamp(int64(r.M.N)), "mroot": r.M.R})
				if want <= i {
					c, _, _ = theJS.op(w.cl, true, theJS.mobj("mblock", mp, Ev{"want": want}), &r)
					evs = append(evs, Ev{"ev": "mhead", "honest": 1, "hs": i, "want": 0, "code": c, "root": r.R, "ms": clamp(int64(r.M.N)), "mroot": r.M.R})
				}
			}
			if i == n {
				break
			}
			k := keys[s.rng.Intn(len(keys))]
			var r jsEntry
			e := Ev{"ev": "mset", "x": i + 1, "key": hx(k)}
			if s.rng.Intn(4) == 0 {
				e["code"], _, _ = theJS.op(w.cl, true, theJS.mobj("del", mp, Ev{"k": hx(k)}), &r)
				e["act"], e["li"] = "delete", ""
			} else {
				b := s.bytes()
				e["code"], _, _ = theJS.op(w.cl, true, theJS.mobj("set", mp, Ev{"k": hx(k), "e": Ev{"f": "raw", "b": hx(b)}}), &r)
				e["act"], e["li"] = "set", hx(b)
			}
			e["lh"] = r.LH
			evs = append(evs, e)
		}
		read := func(l *verifiable.Log) []*pb.LeafData {
			rv := []*pb.LeafData{}
			for e := range l.Entries(ctx, 0, int64(n)) {
				rv = append(rv, e)
			}
			return rv
		}
		muts, heads := read(mp.MutationLog()), read(mp.TreeHeadLog())
		for _, lt := range []string{"mut", "head"} {
			for _, f := range []string{"raw", "json"} {
				if lt == "mut" && f == "json" {
					continue // what is shown of a mutation is more than what is hashed
				}
				l := mp.MutationLog()
				if lt == "head" {
					l = mp.TreeHeadLog()
				}
				got := []jsEntry{}
				c, _, _ := theJS.op(w.cl, true, theJS.obj("entries", l.Log, Ev{"i": 0, "j": n, "f": f}), &got)
				lhs := []string{}
				for _, x := range got {
					lhs = append(lhs, x.LH)
				}
				evs = append(evs, Ev{"ev": "mread", "lt": lt, "n": n, "code": c, "got": lhs})
			}
		}
		v := newMV(keys, &fakeMap{muts: muts, heads: heads})
		for _, e := range evs {
			v.emit(e)
		}
		w.close()
	}
}

func (s *S) jsMangledMap() {
	keys := s.keySet(3)
	for i, k := range keys {
		if len(k) == 0 {
			keys[i] = []byte("k")
		}
	}
	N := 6
	base := s.fakeMuts(N, keys, "t")
	A := newFake(base)
	B := newFake(append(append([]*pb.MapMutation{}, base[:3]...), s.fakeMuts(N-3, keys, "b")...))
	v := newMV(keys, A, B)
	keep := theJS.keep
	theJS.keep = 1
	var ls []*liar
	for n := 1; n <= N; n++ {
		ls = append(ls, A.cut(n).liar())
	}
	full := A.liar()
	theJS.edit = s.mangling(2)
	for i := 0; i < s.q(1500, 15000); i++ {
		sv := full
		if s.rng.Intn(3) == 0 {
			sv = ls[s.rng.Intn(N)]
		}
		ms := 1 + s.rng.Intn(N)
		w := A
		if s.rng.Intn(4) == 0 {
			w = B
		}
		st := w.state(ms, ms+s.rng.Intn(N+1-ms))
		if s.rng.Intn(2) == 0 {
			v.vget(mapOf(sv), st, keys[s.rng.Intn(len(keys))], 0)
			continue
		}
		if s.rng.Intn(4) == 0 {
			st = nil
		}
		v.vstate(mapOf(sv), st, s.rng.Intn(2) == 0, int64(s.rng.Intn(N+1)), 0, 0)
	}
	theJS.edit = nil
	theJS.keep = keep
	v.done()
}

// scenJSJson: the hashes and documents that the client makes of stored JSON.
func scenJSJson(s *S) {
	j := useJS(s, 1)
	var t *Tr
	n := 0
	do := func(d Doc, redacted bool) {
		n++
		if t == nil || t.n > 1500 {
			t = newTrace()
		}
		src := []byte(d.text(s.rng))
		emit := func(f string, r jsEntry, shed bool) {
			out := docBad
			if r.U != "" {
				b, err := hex.DecodeString(r.U)
				must(err)
				out = parseDocOrBad(b)
			}
			t.emit(Ev{"ev": "jsh", "doc": d, "f": f, "lh": r.LH, "shed": shed, "out": out})
		}
		if !redacted {
			var r jsEntry
			j.op(&liar{}, true, Ev{"op": "own", "e": Ev{"f": "json", "b": hx(src)}}, &r)
			r.U = hx(src)
			emit("own", r, false)
		}
		b, err := json.Marshal(&pb.LeafData{LeafInput: []byte("x"), ExtraData: src, Format: pb.DataFormat_JSON})
		must(err)
		for _, f := range []string{"json", "redacted"} {
			if f == "redacted" && len(src) == 0 {
				continue
			}
			var r jsEntry
			c, _, _ := j.op(&liar{}, true, Ev{"op": "made", "f": f, "b": hx(b)}, &r)
			if c != "OK" {
				if f == "json" {
					t.emit(Ev{"ev": "crash", "f": f, "doc": d})
				}
				continue
			}
			emit(f, r, f == "redacted")
		}
	}
	for i := 0; i < s.q(700, 6000); i++ {
		d := s.randDoc(3, i%2 == 0)
		if i%3 > 0 {
			d = s.randObj(3, i%2 == 0)
		}
		do(d, i%2 == 0)
		if d[0] == "o" {
			if src, err := verifiable.CreateRedactableJSONLeafData([]byte(d.text(nil))); err == nil {
				rd := parseDoc(src.ExtraData)
				do(rd, false)
				for _, names := range s.subsets(rd.fields()) {
					if s.rng.Intn(3) == 0 {
						do(rd.redact(names), true)
					}
				}
			}
		}
	}
	j.forms(s)
	fmt.Println("documents", n)
}

// forms: text in different Unicode forms has the hash of its canonical composition.
func (j *jsc) forms(s *S) {
	t := newTrace()
	parts := []string{"e\u0301", "\u00e9", "A\u030a", "\u212b", "o\u0302\u0323", "\u1100\u1161\u11a8", "\uac00", "x", " ", "\u0301", "\U0001d15e", "q\u0307\u0323", "\u2126", "\uf900", "fi", "\ufb01", "\u0958"}
	for i := 0; i < s.q(150, 1500); i++ {
		str := func() string {
			x := ""
			for k := s.rng.Intn(4); k > 0; k-- {
				x += parts[s.rng.Intn(len(parts))]
			}
			return x
		}
		fs := []Field{}
		used := map[string]bool{}
		for k := 1 + s.rng.Intn(3); k > 0; k-- {
			if n := str(); !used[norm.NFC.String(n)] {
				used[norm.NFC.String(n)] = true
				fs = append(fs, Field{n, []Doc{dStr(str()), dList(dStr(str()), dNum(1))}[s.rng.Intn(2)]})
			}
		}
		d := dObj(fs...)
		src := []byte(d.text(s.rng))
		var r jsEntry
		j.op(&liar{}, true, Ev{"op": "own", "e": Ev{"f": "json", "b": hx(src)}}, &r)
		// the order of the fields is that of their hashes, so that it does not matter here
		t.emit(Ev{"ev": "jsn", "doc": d.composed(), "lh": r.LH})
	}
}

func (d Doc) composed() Doc {
	switch d[0] {
	case "s":
		b, err := hex.DecodeString(d[1].(string))
		must(err)
		return dStr(norm.NFC.String(string(b)))
	case "l":
		ds := d.items()
		for i := range ds {
			ds[i] = ds[i].composed()
		}
		return dList(ds...)
	case "o":
		fs := d.fields()
		for i := range fs {
			fs[i].Name, fs[i].D = norm.NFC.String(fs[i].Name), fs[i].D.composed()
		}
		return dObj(fs...)
	}
	return d
}
