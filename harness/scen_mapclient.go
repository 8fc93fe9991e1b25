package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"

	"github.com/continusec/objecthash"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	scenarios["C19"] = scenMapAudit
	scenarios["C20"] = scenMapState
}

type mth_ = pb.MapTreeHashResponse

// fakeMap is a map made up of mutations, with what a service would answer for it.
type fakeMap struct {
	ms    []*pb.MapMutation
	muts  []*pb.LeafData // mutation log
	heads []*pb.LeafData // tree head log
	mh    [][]byte       // their leaf hashes
	th    [][]byte
	hd    []*mth_ // map head after n mutations
	cont  [][]kv
}

func objHash(text []byte) []byte {
	var o any
	must(json.Unmarshal(text, &o))
	h, err := objecthash.ObjectHashWithStdRedaction(o)
	must(err)
	return h
}

// mutEntry is the mutation log entry of a mutation.
func mutEntry(m *pb.MapMutation) *pb.LeafData {
	full, err := json.Marshal(m)
	must(err)
	c := &pb.MapMutation{Timestamp: m.Timestamp, Action: m.Action, Key: m.Key, PreviousLeafHash: m.PreviousLeafHash}
	if m.Value != nil {
		c.Value = &pb.LeafData{LeafInput: m.Value.LeafInput}
	}
	b, err := json.Marshal(c)
	must(err)
	return &pb.LeafData{LeafInput: objHash(b), ExtraData: full, Format: pb.DataFormat_JSON}
}

func headEntry(h *mth_) *pb.LeafData {
	b, err := json.Marshal(h)
	must(err)
	return &pb.LeafData{LeafInput: objHash(b), ExtraData: b, Format: pb.DataFormat_JSON}
}

func applyKV(c []kv, m *pb.MapMutation) []kv {
	cur := []byte(nil)
	var rest []kv
	for _, x := range c {
		if bytes.Equal(x.k, m.Key) {
			cur = x.v
		} else {
			rest = append(rest, x)
		}
	}
	v := m.Value.GetLeafInput()
	switch m.Action {
	case "delete":
		v = nil
	case "update":
		if !bytes.Equal(leafHash(cur), m.PreviousLeafHash) {
			v = cur
		}
	}
	if len(v) > 0 {
		rest = append(rest, kv{m.Key, v})
	}
	return rest
}

func (f *fakeMap) add(m *pb.MapMutation) {
	e := mutEntry(m)
	f.ms = append(f.ms, m)
	f.muts = append(f.muts, e)
	f.mh = append(f.mh, leafHash(e.LeafInput))
	c := applyKV(f.cont[len(f.cont)-1], m)
	f.cont = append(f.cont, c)
	h := &mth_{RootHash: sparseRoot(c, 0), MutationLog: &lth{TreeSize: int64(len(f.muts)), RootHash: mth(f.mh)}}
	f.hd = append(f.hd, h)
	he := headEntry(h)
	f.heads = append(f.heads, he)
	f.th = append(f.th, leafHash(he.LeafInput))
}

func newFake(ms []*pb.MapMutation) *fakeMap {
	f := &fakeMap{cont: [][]kv{nil}, hd: []*mth_{{RootHash: defs[0], MutationLog: &lth{}}}}
	for _, m := range ms {
		f.add(m)
	}
	return f
}

// cut is the map when it had n mutations.
func (f *fakeMap) cut(n int) *fakeMap {
	return &fakeMap{ms: f.ms[:n], muts: f.muts[:n], heads: f.heads[:n], mh: f.mh[:n], th: f.th[:n], hd: f.hd[:n+1], cont: f.cont[:n+1]}
}

func (f *fakeMap) get(key []byte, size int64) (*pb.MapGetValueResponse, error) {
	if size < 0 || size > int64(len(f.muts)) {
		return nil, errRange
	}
	if size == 0 {
		size = int64(len(f.muts))
	}
	v := &pb.LeafData{}
	for _, x := range f.cont[size] {
		if bytes.Equal(x.k, key) {
			v.LeafInput = x.v
		}
	}
	return &pb.MapGetValueResponse{TreeSize: size, Value: v, AuditPath: sparsePath(f.cont[size], key)}, nil
}

func (f *fakeMap) head(size int64) (*mth_, error) {
	if size < 0 || size > int64(len(f.muts)) {
		return nil, errRange
	}
	if size == 0 {
		size = int64(len(f.muts))
	}
	return f.hd[size], nil
}

func (f *fakeMap) list(lt pb.LogType) ([][]byte, []*pb.LeafData) {
	if lt == pb.LogType_STRUCT_TYPE_MUTATION_LOG {
		return f.mh, f.muts
	}
	return f.th, f.heads
}

// liar answers truthfully for this map.
func (f *fakeMap) liar() *liar {
	return &liar{
		onHead: func(q *pb.LogTreeHashRequest) (*lth, error) {
			h, _ := f.list(q.Log.LogType)
			return trueHead(h, q.TreeSize)
		},
		onIncl: func(q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
			h, _ := f.list(q.Log.LogType)
			return trueIncl(h, q)
		},
		onCons: func(q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
			h, _ := f.list(q.Log.LogType)
			return trueCons(h, q)
		},
		onFetch: func(q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
			_, e := f.list(q.Log.LogType)
			return trueFetch(e, q)
		},
		onMHead: func(q *pb.MapTreeHashRequest) (*mth_, error) { return f.head(q.TreeSize) },
		onGet:   func(q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) { return f.get(q.Key, q.TreeSize) },
	}
}

func isMut(l *pb.LogRef) bool { return l.LogType == pb.LogType_STRUCT_TYPE_MUTATION_LOG }

// history of a made-up map
func (s *S) fakeMuts(n int, keys [][]byte, tag string) []*pb.MapMutation {
	var rv []*pb.MapMutation
	for i, st := range s.randomSchedule(n, len(keys)) {
		if s.rng.Intn(7) == 0 {
			st.V = 0
		}
		m := s.mut(st, keys)
		rv = append(rv, &pb.MapMutation{Timestamp: tag + strconv.Itoa(i), Action: m.Act, Key: m.Key, Value: m.Val, PreviousLeafHash: m.Prev})
	}
	return rv
}

// C19

type mv struct{ *Tr }

func (v *mv) muts(es []*pb.LeafData) { v.emit(Ev{"ev": "muts", "v": entries("mut", es)}) }
func (v *mv) heads(es []*pb.LeafData) {
	v.emit(Ev{"ev": "heads", "v": entries("head", es)})
}

func valMark(d *pb.LeafData) string {
	if d == nil {
		return "nil"
	}
	return hx(d.LeafInput)
}

type auditOpts struct {
	stopV, stopC int
	noV, noC     bool
	onV, onC     func(n int)
	honest       bool
}

func (v *mv) maudit(mp *verifiable.Map, prev, head *lth, o auditOpts) {
	vals := []string{}
	chg := [][3]any{}
	var vf verifiable.LeafDataAuditFunction
	var cf verifiable.MapAuditFunction
	if !o.noV {
		vf = func(_ context.Context, d *pb.LeafData) error {
			vals = append(vals, valMark(d))
			if o.onV != nil {
				o.onV(len(vals))
			}
			if len(vals) == o.stopV {
				return errStop
			}
			return nil
		}
	}
	if !o.noC {
		cf = func(_ context.Context, idx int64, key []byte, d *pb.LeafData) error {
			chg = append(chg, [3]any{clamp(idx), hx(key), valMark(d)})
			if o.onC != nil {
				o.onC(len(chg))
			}
			if len(chg) == o.stopC {
				return errStop
			}
			return nil
		}
	}
	var p *verifiable.MapTreeState
	if prev != nil {
		p = &verifiable.MapTreeState{TreeHeadLogTreeHead: prev}
	}
	c := guardErr(func() error {
		return mp.VerifyMap(ctx, p, &verifiable.MapTreeState{TreeHeadLogTreeHead: head}, vf, cf)
	})
	v.emit(Ev{"ev": "maudit", "prev": lthRec(prev), "head": lthRec(head), "code": c, "vals": vals, "chg": chg, "stopv": o.stopV, "stopc": o.stopC,
		"nov": o.noV, "noc": o.noC, "honest": o.honest})
}

func at(h [][]byte, n int) *lth {
	if n < 0 {
		return nil
	}
	return &lth{TreeSize: int64(n), RootHash: mth(h[:n])}
}

func scenMapAudit(s *S) {
	for tr := 0; tr < s.q(8, 32); tr++ {
		keys := s.keySet(2 + tr%5)
		N := 9 + s.rng.Intn(s.q(5, 12))
		ms := s.fakeMuts(N, keys, "t")
		if tr%4 == 0 { // every kind of step that changes nothing, and returns to earlier contents
			k, k2 := keys[0], keys[1]
			ld := func(i int) *pb.LeafData { return &pb.LeafData{LeafInput: s.val(i), ExtraData: s.extra()} }
			ms = []*pb.MapMutation{
				{Action: "delete", Key: k}, {Action: "set", Key: k, Value: ld(1)}, {Action: "set", Key: k, Value: ld(1)},
				{Action: "update", Key: k, Value: ld(2), PreviousLeafHash: leafHash([]byte("no"))}, {Action: "set", Key: k2, Value: ld(2)},
				{Action: "update", Key: k, Value: ld(2), PreviousLeafHash: leafHash(s.val(1))}, {Action: "set", Key: k, Value: ld(1)},
				{Action: "delete", Key: k2}, {Action: "delete", Key: k2}, {Action: "delete", Key: k}, {Action: "set", Key: k, Value: ld(0)},
				{Action: "update", Key: k, Value: ld(1), PreviousLeafHash: leafHash(nil)}, {Action: "set", Key: k},
				{Action: "update", Key: k2, PreviousLeafHash: leafHash(nil)}, {Action: "update", Key: k2, Value: ld(3), PreviousLeafHash: nil},
				{Action: "set", Key: []byte{}, Value: ld(3)},
			}
			for i, m := range ms {
				m.Timestamp = fmt.Sprint("t", i)
			}
		}
		s.auditFake(newFake(ms), keys)
	}
	s.auditMaps()
}

func (s *S) auditFake(f *fakeMap, keys [][]byte) {
	v := &mv{newTrace()}
	for _, k := range keys {
		v.emit(Ev{"ev": "keys", "key": hx(k)})
	}
	v.muts(f.muts)
	v.heads(f.heads)
	N := len(f.muts)
	pick := func() (*lth, *lth, int, int) {
		n := 1 + s.rng.Intn(N)
		if s.rng.Intn(2) == 0 {
			n = N
		}
		m := s.rng.Intn(n+1) - 1
		if s.rng.Intn(2) == 0 {
			m = -1
		}
		return at(f.th, m), at(f.th, n), m, n
	}
	// honest: all pairs
	for n := 0; n <= N; n++ {
		for m := -1; m <= n; m++ {
			if n > 5 && n < N && s.rng.Intn(3) > 0 {
				continue
			}
			v.maudit(mapOf(f.liar()), at(f.th, m), at(f.th, n), auditOpts{honest: true})
		}
	}
	for i := 0; i < 12; i++ {
		a, b, _, n := pick()
		v.maudit(mapOf(f.liar()), a, b, auditOpts{honest: true, noV: i%2 == 0, noC: i%3 == 0})
		// the mutation log is seen to grow in the course of the audit, and comes in small portions
		x := f.liar()
		size := n
		if i%2 == 0 {
			size = 1 + s.rng.Intn(n)
		}
		fetch := x.onFetch
		asked := 0
		x.onFetch = func(q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
			if i%4 < 2 {
				q = &pb.LogFetchEntriesRequest{Log: q.Log, First: q.First, Last: min(q.Last, q.First+1+int64(s.rng.Intn(3)))}
			}
			return fetch(q)
		}
		x.onHead = func(q *pb.LogTreeHashRequest) (*lth, error) {
			h, _ := f.list(q.Log.LogType)
			if isMut(q.Log) {
				asked++
				if size < N && asked > 1 {
					size += 1 + s.rng.Intn(N-size)
				}
				return trueHead(h[:size], q.TreeSize)
			}
			return trueHead(h, q.TreeSize)
		}
		v.maudit(mapOf(x), a, b, auditOpts{honest: size >= n && asked == 0 && i%2 == 1})
		// always as large as the auditor needs next
		asked = 0
		y := f.liar()
		need := 0
		y.onHead = func(q *pb.LogTreeHashRequest) (*lth, error) {
			h, _ := f.list(q.Log.LogType)
			if isMut(q.Log) {
				if need < N {
					need++
				}
				return trueHead(h[:need], q.TreeSize)
			}
			return trueHead(h, q.TreeSize)
		}
		v.maudit(mapOf(y), nil, b, auditOpts{honest: true}) // one more each time it asks
	}
	// callbacks that object
	for k := 1; k <= N+1; k++ {
		a, b, _, _ := pick()
		v.maudit(mapOf(f.liar()), a, b, auditOpts{stopV: k})
		v.maudit(mapOf(f.liar()), a, b, auditOpts{stopC: k, noV: k%2 == 0})
		v.maudit(mapOf(f.liar()), nil, at(f.th, N), auditOpts{stopV: k, noC: k%3 == 0})
		v.maudit(mapOf(f.liar()), nil, at(f.th, N), auditOpts{stopC: k})
	}
	// requests that are not answered
	for _, x := range errKinds {
		for k := 1; k <= 6; k++ {
			a, b, m, _ := pick()
			if s.rng.Intn(3) == 0 && m > 0 {
				a = &lth{TreeSize: a.TreeSize, RootHash: flip(s, a.RootHash)}
			}
			v.maudit(mapOf(f.liar().failing(k, s.rng.Intn(2) == 0, x)), a, b, auditOpts{noV: s.rng.Intn(4) == 0, noC: s.rng.Intn(4) == 0})
		}
	}
	s.tamperMuts(v, f, keys, pick)
	s.tamperHeads(v, f, pick)
}

// tamperMuts alters the mutation log, with or without its tree.
func (s *S) tamperMuts(v *mv, f *fakeMap, keys [][]byte, pick func() (*lth, *lth, int, int)) {
	N := len(f.muts)
	try := func(x []*pb.LeafData) {
		g := *f
		g.muts = x
		v.muts(x)
		for j := 0; j < 2; j++ {
			a, b, _, _ := pick()
			if j == 0 {
				b = at(f.th, N)
			}
			g.mh = f.mh
			v.maudit(mapOf(g.liar()), a, b, auditOpts{noV: s.rng.Intn(4) == 0, noC: s.rng.Intn(4) == 0}) // entries do not fit the tree
			g.mh = hashesOf(x)
			v.maudit(mapOf(g.liar()), a, b, auditOpts{})
		}
	}
	with := func(i int, e *pb.LeafData) []*pb.LeafData {
		x := append([]*pb.LeafData{}, f.muts...)
		x[i] = e
		return x
	}
	ed := func(i int, g func(m *pb.MapMutation)) *pb.MapMutation {
		var m pb.MapMutation
		must(json.Unmarshal(f.muts[i].ExtraData, &m))
		g(&m)
		return &m
	}
	for i := 0; i < N; i++ {
		li, ex := f.muts[i].LeafInput, f.muts[i].ExtraData
		edits := []func(m *pb.MapMutation){
			func(m *pb.MapMutation) { m.Key = keys[s.rng.Intn(len(keys))] },
			func(m *pb.MapMutation) { m.Key = append(append([]byte{}, m.Key...), 'x') },
			func(m *pb.MapMutation) { m.Value = &pb.LeafData{LeafInput: s.val(s.rng.Intn(5))} },
			func(m *pb.MapMutation) { m.Value = nil },
			func(m *pb.MapMutation) { m.Action = []string{"set", "delete", "update"}[s.rng.Intn(3)] },
			func(m *pb.MapMutation) { m.PreviousLeafHash = leafHash(s.val(s.rng.Intn(5))) },
			func(m *pb.MapMutation) { m.Timestamp += "0" },
			func(m *pb.MapMutation) {
				if m.Value != nil {
					m.Value = &pb.LeafData{LeafInput: m.Value.LeafInput, ExtraData: []byte("other"), Format: 1 - m.Value.Format}
				}
			},
		}
		for k, g := range edits {
			if !s.thorough && (i+k)%2 == 0 {
				continue
			}
			m := ed(i, g)
			e := mutEntry(m)
			try(with(i, &pb.LeafData{LeafInput: li, ExtraData: e.ExtraData, Format: 1})) // another content under the same hash
			if k%2 == 0 {
				try(with(i, e)) // altogether another entry
			}
		}
		switch i % 4 {
		case 0:
			try(with(i, &pb.LeafData{LeafInput: flip(s, li), ExtraData: ex}))
			try(with(i, nil))
			try(with(i, &pb.LeafData{LeafInput: li, ExtraData: []byte("null")}))
		case 1:
			try(with(i, &pb.LeafData{LeafInput: li, ExtraData: ex[1:]}))
			try(with(i, &pb.LeafData{LeafInput: li}))
			try(append(append([]*pb.LeafData{}, f.muts[:i]...), f.muts[i+1:]...))
		case 2:
			try(append(append([]*pb.LeafData{}, f.muts[:i+1]...), f.muts[i:]...))
			try(f.muts[:i])
			try(with(i, &pb.LeafData{LeafInput: objHash([]byte("{}")), ExtraData: []byte("{}")}))
		case 3:
			x := append([]*pb.LeafData{}, f.muts...)
			x[i], x[i-1] = x[i-1], x[i]
			try(x)
			try(append(append(append([]*pb.LeafData{}, f.muts[:i]...), mutEntry(&pb.MapMutation{Action: "set", Key: keys[0], Value: &pb.LeafData{LeafInput: []byte("new")}})), f.muts[i:]...))
			try(with(i, &pb.LeafData{LeafInput: objHash([]byte(`{"action":"SET"}`)), ExtraData: []byte(`{"action":"SET"}`)}))
		}
	}
	v.muts(f.muts)
}

// tamperHeads alters the tree head log, and with it the head that is audited.
func (s *S) tamperHeads(v *mv, f *fakeMap, pick func() (*lth, *lth, int, int)) {
	N := len(f.heads)
	try := func(x []*pb.LeafData) {
		g := *f
		g.heads = x
		v.heads(x)
		for j := 0; j < 2; j++ {
			a, b, m, n := pick()
			if j == 0 {
				b, n = at(f.th, N), N
			}
			if s.rng.Intn(3) == 0 {
				g.th = f.th
				v.maudit(mapOf(g.liar()), a, b, auditOpts{})
			}
			g.th = hashesOf(x)
			if n <= len(x) && m <= len(x) {
				v.maudit(mapOf(g.liar()), at(g.th, m), at(g.th, n), auditOpts{noV: s.rng.Intn(4) == 0, noC: s.rng.Intn(4) == 0})
			}
			if j == 0 && len(x) > N {
				v.maudit(mapOf(g.liar()), at(g.th, m), at(g.th, len(x)), auditOpts{})
			}
		}
	}
	with := func(i int, e *pb.LeafData) []*pb.LeafData {
		x := append([]*pb.LeafData{}, f.heads...)
		x[i] = e
		return x
	}
	for i := 0; i < N; i++ {
		h := f.hd[i+1]
		li, ex := f.heads[i].LeafInput, f.heads[i].ExtraData
		mk := func(root []byte, ms int64, mroot []byte) *mth_ {
			return &mth_{RootHash: root, MutationLog: &lth{TreeSize: ms, RootHash: mroot}}
		}
		o := s.rng.Intn(N + 1)
		ms, mr := h.MutationLog.TreeSize, h.MutationLog.RootHash
		alts := []*mth_{
			mk(flip(s, h.RootHash), ms, mr), mk(f.hd[o].RootHash, ms, mr), mk(h.RootHash, ms, flip(s, mr)), mk(h.RootHash, ms, f.hd[o].MutationLog.RootHash),
			mk(h.RootHash, ms+1, mr), mk(h.RootHash, ms-1, mr), mk(h.RootHash, int64(N)+1, mr), mk(h.RootHash, -1, mr), mk(h.RootHash, 0, nil), mk(defs[0], 0, nil),
			mk(nil, ms, mr), mk(h.RootHash, ms, nil), {RootHash: h.RootHash}, {}, f.hd[o], mk(defs[0], ms, mr), mk(h.RootHash[:31], ms, mr),
			mk(f.hd[i].RootHash, ms, mr),
		}
		for k, a := range alts {
			if !s.thorough && (i+k)%2 == 0 && k != 17 {
				continue
			}
			e := headEntry(a)
			try(with(i, e))
			if k%3 == 0 {
				try(with(i, &pb.LeafData{LeafInput: li, ExtraData: e.ExtraData}))
				try(with(i, &pb.LeafData{LeafInput: e.LeafInput, ExtraData: ex}))
			}
		}
		switch i % 4 {
		case 0:
			try(with(i, nil))
			try(with(i, &pb.LeafData{LeafInput: li, ExtraData: []byte("null")}))
			try(with(i, &pb.LeafData{LeafInput: objHash([]byte("null")), ExtraData: []byte("null")}))
			try(with(i, &pb.LeafData{LeafInput: objHash([]byte("[]")), ExtraData: []byte("[]")}))
		case 1:
			try(append(append([]*pb.LeafData{}, f.heads[:i]...), f.heads[i+1:]...))
			try(with(i, &pb.LeafData{LeafInput: li, ExtraData: ex[1:]}))
			try(with(i, &pb.LeafData{LeafInput: flip(s, li), ExtraData: ex}))
		case 2:
			try(append(append([]*pb.LeafData{}, f.heads[:i+1]...), f.heads[i:]...))
			try(with(i, &pb.LeafData{LeafInput: li}))
		case 3:
			x := append([]*pb.LeafData{}, f.heads...)
			x[i], x[i-1] = x[i-1], x[i]
			try(x)
		}
	}
	v.heads(f.heads)
}

// auditMaps audits real maps between all the states they were in, also while they grow.
func (s *S) auditMaps() {
	for tr, c := range []WC{{}, {}, {Backend: "bolt"}, {Transport: "rest"}, {Transport: "grpc"}, {Backend: "badger"}} {
		w := newWorld(c)
		keys := s.keySet(4)
		if c.Transport == "rest" {
			for i, k := range keys {
				if len(k) == 0 {
					keys[i] = []byte("k")
				}
			}
		}
		cl := (&verifiable.Client{Service: w.cl}).Account("77", "key")
		mp := cl.VerifiableMap("audited")
		hs := []*lth{nil}
		N := 8 + s.rng.Intn(6)
		do := func(st Step) {
			m := s.mut(st, keys)
			switch m.Act {
			case "set":
				mp.Set(ctx, m.Key, m.Val)
			case "delete":
				mp.Delete(ctx, m.Key)
			case "update":
				mp.Update(ctx, m.Key, m.Val, m.Prev)
			}
		}
		for _, st := range s.randomSchedule(N, len(keys)) {
			do(st)
			h, err := mp.TreeHeadLog().TreeHead(ctx, 0)
			must2(err, "head")
			hs = append(hs, h)
		}
		v := &mv{}
		type call struct {
			a, b *lth
			o    auditOpts
		}
		var calls []call
		for i, b := range hs[1:] {
			for _, a := range hs[:i+2] {
				calls = append(calls, call{a, b, auditOpts{honest: true}})
			}
		}
		// the map grows during the audit
		for k := 1; k < 6; k++ {
			g := s.randomSchedule(3, len(keys))
			grow := func(n int) {
				if n == k {
					for _, st := range g {
						do(st)
					}
				}
			}
			o := auditOpts{honest: true, onV: grow}
			if k%2 == 0 {
				o = auditOpts{honest: true, onC: grow}
			}
			calls = append(calls, call{hs[s.rng.Intn(3)], hs[len(hs)-1], o})
		}
		// run, then tell what the lists were in the end
		v.Tr = newTrace()
		buf := &evBuf{}
		for _, x := range calls {
			buf.run(v, mp, x.a, x.b, x.o)
		}
		read := func(l *verifiable.Log) []*pb.LeafData {
			rv := []*pb.LeafData{}
			h, err := l.TreeHead(ctx, 0)
			must2(err, "head")
			for e := range l.Entries(ctx, 0, h.GetTreeSize()) {
				rv = append(rv, e)
			}
			return rv
		}
		t := v.Tr
		for _, k := range keys {
			t.emit(Ev{"ev": "keys", "key": hx(k)})
		}
		v.muts(read(mp.MutationLog()))
		v.heads(read(mp.TreeHeadLog()))
		for _, e := range buf.evs {
			t.emit(e)
		}
		w.close()
		_ = tr
	}
}

// evBuf holds back the events of audits.
type evBuf struct{ evs []Ev }

func (b *evBuf) run(v *mv, mp *verifiable.Map, a, h *lth, o auditOpts) {
	x := &Tr{hold: &b.evs}
	(&mv{x}).maudit(mp, a, h, o)
}

// C20

func stateRec(m *verifiable.MapTreeState) Ev {
	if m == nil {
		return Ev{"k": "none", "root": "", "ms": 0, "mroot": "", "tn": 0, "troot": ""}
	}
	h := m.MapTreeHead
	return Ev{"k": "state", "root": hx(h.GetRootHash()), "ms": clamp(h.GetMutationLog().GetTreeSize()), "mroot": hx(h.GetMutationLog().GetRootHash()),
		"tn": clamp(m.TreeHeadLogTreeHead.GetTreeSize()), "troot": hx(m.TreeHeadLogTreeHead.GetRootHash())}
}

func (v *cv) vstate(mp *verifiable.Map, held *verifiable.MapTreeState, latest bool, want int64, honest, hs int) *verifiable.MapTreeState {
	var r *verifiable.MapTreeState
	var c string
	if theJS != nil {
		if hs == 0 {
			honest = 0 // it has nothing to say about an empty map
		}
		if theJS.skips(honest) {
			return nil
		}
		r, c = theJS.vstate(mp, held, latest, want, honest)
	} else {
		r, c = swift(func() (*verifiable.MapTreeState, error) {
			if latest {
				return mp.VerifiedLatestMapState(ctx, held)
			}
			return mp.VerifiedMapState(ctx, held, want)
		})
	}
	v.say(Ev{"ev": "vstate", "held": stateRec(held), "latest": latest, "want": clamp(want), "honest": honest, "hs": hs, "code": c, "res": stateRec(r)})
	return r
}

func (v *cv) vget(mp *verifiable.Map, st *verifiable.MapTreeState, key []byte, honest int) {
	var li, c string
	if theJS != nil {
		if theJS.skips(honest) || len(key) == 0 {
			return
		}
		li, c = theJS.vget(mp, st, key, honest)
	} else {
		var r *pb.LeafData
		r, c = swift(func() (*pb.LeafData, error) { return mp.VerifiedGet(ctx, key, st) })
		li = hx(r.GetLeafInput())
	}
	v.say(Ev{"ev": "vget", "state": stateRec(st), "key": hx(key), "honest": honest, "code": c, "li": li})
}

func newMV(keys [][]byte, worlds ...*fakeMap) *cv {
	v := &cv{Tr: newTrace(), seen: map[string]bool{}}
	for _, k := range keys {
		v.emit(Ev{"ev": "keys", "key": hx(k)})
	}
	for _, w := range worlds {
		v.emit(Ev{"ev": "world", "muts": entries("mut", w.muts), "heads": entries("head", w.heads)})
	}
	return v
}

func (f *fakeMap) state(ms, tn int) *verifiable.MapTreeState {
	return &verifiable.MapTreeState{MapTreeHead: f.hd[ms], TreeHeadLogTreeHead: at(f.th, tn)}
}

func scenMapState(s *S) {
	s.stateHonest()
	for tr := 0; tr < s.q(3, 8); tr++ {
		keys := s.keySet(3)
		N := 5 + tr%3
		base := s.fakeMuts(N, keys, "t")
		A := newFake(base)
		fk := func(at int, tag string) *fakeMap {
			return newFake(append(append([]*pb.MapMutation{}, base[:at]...), s.fakeMuts(N-at, keys, tag)...))
		}
		worlds := []*fakeMap{A, fk(3, "b"), fk(1, "c"), fk(N-1, "d")}
		// a tree head log that states something else about the mutation log of A: it is as good as any other for the client, apart from its fork
		v := newMV(keys, worlds...)
		held := []*verifiable.MapTreeState{nil}
		for ms := 1; ms <= N; ms++ {
			for tn := ms; tn <= N; tn++ {
				if N > 5 && s.rng.Intn(2) == 0 && tn != N && tn != ms {
					continue
				}
				held = append(held, A.state(ms, tn))
			}
		}
		held = append(held, worlds[1].state(4, 5))
		// truthful, at every length
		for n := 0; n <= N; n++ {
			g := A.cut(n)
			mp := mapOf(g.liar())
			for _, h := range held[:len(held)-1] {
				if h != nil && int(h.TreeHeadLogTreeHead.TreeSize) > n {
					continue
				}
				v.vstate(mp, h, true, 0, 1, n)
				for want := int64(-1); want <= int64(n)+1; want++ {
					v.vstate(mp, h, false, want, 1, n)
				}
				if h != nil {
					for _, k := range keys {
						v.vget(mp, h, k, 1)
					}
				}
			}
		}
		// every answer from a world of its own
		pick := make([]*fakeMap, 6)
		first := true
		liars := map[*fakeMap]*liar{}
		roll := A.cut(3)
		for _, w := range append(worlds, roll) {
			liars[w] = w.liar()
		}
		mutate := false // alter what is answered
		sv := &liar{
			onMHead: func(q *pb.MapTreeHashRequest) (*mth_, error) {
				first = true
				r, err := liars[pick[0]].onMHead(q)
				if err == nil && mutate && s.rng.Intn(2) == 0 {
					r = &mth_{RootHash: r.RootHash, MutationLog: &lth{TreeSize: r.MutationLog.TreeSize, RootHash: r.MutationLog.RootHash}}
					switch s.rng.Intn(7) {
					case 0:
						r.RootHash = flip(s, r.RootHash)
					case 1:
						r.RootHash = A.hd[s.rng.Intn(N+1)].RootHash
					case 2:
						r.MutationLog.TreeSize += int64(s.rng.Intn(5) - 2)
					case 3:
						r.MutationLog.RootHash = flip(s, r.MutationLog.RootHash)
					case 4:
						r.MutationLog = nil
					case 5:
						r.MutationLog = worlds[s.rng.Intn(4)].hd[s.rng.Intn(N+1)].MutationLog
					case 6:
						r.RootHash = nil
					}
				}
				return r, err
			},
			onCons: func(q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
				i := 3
				if isMut(q.Log) {
					i = 1
				}
				r, err := liars[pick[i]].onCons(q)
				if err == nil && mutate && s.rng.Intn(3) == 0 {
					vs := s.variants(r.AuditPath, A.th)
					r.AuditPath = vs[s.rng.Intn(len(vs))]
				}
				return r, err
			},
			onHead: func(q *pb.LogTreeHashRequest) (*lth, error) {
				r, err := liars[pick[2]].onHead(q)
				if err == nil && mutate && s.rng.Intn(3) == 0 {
					r.RootHash = flip(s, r.RootHash)
				}
				return r, err
			},
			onIncl: func(q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
				i := 5
				if first {
					i = 4
				}
				first = false
				r, err := liars[pick[i]].onIncl(q)
				if err == nil && mutate && s.rng.Intn(3) == 0 {
					vs := s.variants(r.AuditPath, A.th)
					r.AuditPath = vs[s.rng.Intn(len(vs))]
					if s.rng.Intn(3) == 0 {
						r.LeafIndex = int64(s.rng.Intn(N))
					}
				}
				return r, err
			},
		}
		mp := mapOf(sv)
		choice := append(append([]*fakeMap{}, worlds[:3]...), roll)
		if s.thorough {
			choice = append(choice, worlds[3])
		}
		C := len(choice)
		total := C * C * C * C * C
		for x := 0; x < total; x++ {
			y := x
			for i := 0; i < 6; i++ {
				if i == 4 {
					continue
				}
				pick[i] = choice[y%C]
				y /= C
			}
			pick[4] = choice[s.rng.Intn(C)]
			for hi, h := range held {
				if !s.thorough && hi > 0 && s.rng.Intn(4) > 0 {
					continue
				}
				mutate = s.rng.Intn(3) == 0
				v.vstate(mp, h, true, 0, 0, 0)
				v.vstate(mp, h, false, int64(s.rng.Intn(N+1)), 0, 0)
			}
		}
		// requests that are not answered
		for _, x := range errKinds {
			for k := 1; k <= 6; k++ {
				for i := 0; i < s.q(20, 100); i++ {
					for j := range pick {
						pick[j] = choice[s.rng.Intn(2)*s.rng.Intn(C)]
					}
					mp := mapOf(sv.failing(k, s.rng.Intn(2) == 0, x))
					mutate = s.rng.Intn(6) == 0
					v.vstate(mp, held[s.rng.Intn(len(held))], s.rng.Intn(2) == 0, int64(s.rng.Intn(N+1)), 0, 0)
				}
			}
			for i := 0; i < s.q(10, 40); i++ {
				v.vget(mapOf(A.liar().failing(1, true, x)), held[1+s.rng.Intn(len(held)-1)], keys[s.rng.Intn(len(keys))], 0)
			}
		}
		// values
		s.valueLies(v, worlds, keys)
		s.forkReads(v, worlds, keys)
		v.done()
	}
	s.stateChains()
	s.stateMixed()
}

// stateMixed: tree head logs that list heads of several histories, in any order and more than once. Everything that
// is said of one list is true of it; it is the lists that do not belong together.
func (s *S) stateMixed() {
	keep := 0
	if theJS != nil {
		keep, theJS.keep = theJS.keep, 1
		defer func() { theJS.keep = keep }()
	}
	for tr := 0; tr < s.q(2, 8); tr++ {
		keys := s.keySet(3)
		N := 4 + tr%3
		base := s.fakeMuts(N, keys, "t")
		worlds := []*fakeMap{newFake(base)}
		for i := 0; i < 2; i++ {
			at := s.rng.Intn(N)
			worlds = append(worlds, newFake(append(append([]*pb.MapMutation{}, base[:at]...), s.fakeMuts(N-at, keys, fmt.Sprint("x", i, "-"))...)))
		}
		all := append([]*fakeMap{}, worlds...)
		lists := append([]*fakeMap{}, worlds...)
		var in [][]*mth_ // the heads in a list
		for _, w := range worlds {
			in = append(in, w.hd[1:])
		}
		for i := 0; i < 6; i++ {
			f := &fakeMap{}
			from := lists[s.rng.Intn(len(lists))]
			k := s.rng.Intn(len(from.th) + 1)
			f.heads = append(f.heads, from.heads[:k]...)
			hs := append([]*mth_{}, in[indexOf(lists, from)][:k]...)
			for n := 1 + s.rng.Intn(5); n > 0; n-- {
				h := worlds[s.rng.Intn(len(worlds))].hd[1+s.rng.Intn(N)]
				if s.rng.Intn(3) == 0 {
					h = &mth_{RootHash: worlds[s.rng.Intn(len(worlds))].hd[1+s.rng.Intn(N)].RootHash, MutationLog: h.MutationLog}
				}
				f.heads = append(f.heads, headEntry(h))
				hs = append(hs, h)
			}
			for _, e := range f.heads {
				f.th = append(f.th, leafHash(e.LeafInput))
			}
			lists, in, all = append(lists, f), append(in, hs), append(all, f)
		}
		v := newMV(keys, all...)
		for i := 0; i < s.q(1500, 20000); i++ {
			li := s.rng.Intn(len(lists))
			tn := 1 + s.rng.Intn(len(lists[li].th))
			held := &verifiable.MapTreeState{MapTreeHead: in[li][s.rng.Intn(tn)], TreeHeadLogTreeHead: at(lists[li].th, tn)}
			lj := li
			if s.rng.Intn(3) == 0 {
				lj = s.rng.Intn(len(lists))
			}
			tm := 1 + s.rng.Intn(len(lists[lj].th))
			if s.rng.Intn(3) > 0 {
				tm = len(lists[lj].th)
			}
			h := in[lj][s.rng.Intn(tm)]
			if s.rng.Intn(6) == 0 {
				h = worlds[s.rng.Intn(len(worlds))].hd[1+s.rng.Intn(N)]
			}
			th := lists[lj].th[:tm]
			mut := worlds[s.rng.Intn(len(worlds))]
			mp := mapOf(&liar{
				onMHead: func(*pb.MapTreeHashRequest) (*mth_, error) { return h, nil },
				onHead:  func(q *pb.LogTreeHashRequest) (*lth, error) { return trueHead(th, q.TreeSize) },
				onIncl:  func(q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) { return trueIncl(th, q) },
				onCons: func(q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
					if isMut(q.Log) {
						return trueCons(mut.mh, q)
					}
					return trueCons(th, q)
				},
			})
			v.vstate(mp, held, s.rng.Intn(4) == 0, h.MutationLog.TreeSize*int64(s.rng.Intn(2)), 0, 0)
		}
		v.done()
	}
}

func indexOf[T comparable](s []T, x T) int {
	for i, y := range s {
		if x == y {
			return i
		}
	}
	return -1
}

// valueLies asks for values at true states of A, answered by other worlds, sizes and keys.
func (s *S) valueLies(v *cv, worlds []*fakeMap, keys [][]byte) {
	A := worlds[0]
	N := len(A.muts)
	var ans *pb.MapGetValueResponse
	mp := mapOf(&liar{onGet: func(*pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) { return ans, nil }})
	for ms := 1; ms <= N; ms++ {
		st := A.state(ms, N)
		for _, k := range keys {
			for _, w := range worlds {
				for size := int64(1); size <= int64(N); size++ {
					for _, k2 := range keys {
						r, err := w.get(k2, size)
						must(err)
						for variant := 0; variant < s.q(4, 8); variant++ {
							ans = &pb.MapGetValueResponse{TreeSize: r.TreeSize, Value: r.Value, AuditPath: r.AuditPath}
							switch variant {
							case 0:
							case 1:
								ans.TreeSize = int64(ms)
							case 2:
								ans.TreeSize = int64(ms)
								ans.Value = &pb.LeafData{LeafInput: s.val(s.rng.Intn(5))}
							default:
								ans.TreeSize = int64(ms)
								p := cp(r.AuditPath)
								switch s.rng.Intn(5) {
								case 0:
									p[s.rng.Intn(256)] = leafHash([]byte("x"))
								case 1:
									p = p[:s.rng.Intn(256)]
								case 2:
									ans.Value = nil
								case 3:
									for i := range p {
										if len(p[i]) > 0 && s.rng.Intn(2) == 0 {
											p[i] = nil
										}
									}
								case 4:
									p = append(p, nil)
								}
								ans.AuditPath = p
							}
							v.vget(mp, st, k, 0)
						}
					}
				}
			}
		}
	}
}

// forkReads reads at states of every history through one client, whose server answers from any of them.
func (s *S) forkReads(v *cv, worlds []*fakeMap, keys [][]byte) {
	N := len(worlds[0].muts)
	cur := 0
	ls := []*liar{}
	for _, w := range worlds {
		ls = append(ls, w.liar())
	}
	mp := mapOf(&liar{onGet: func(q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) { return ls[cur].onGet(q) }})
	for i := 0; i < s.q(400, 4000); i++ {
		of := s.rng.Intn(len(worlds))
		cur = of
		if s.rng.Intn(4) == 0 {
			cur = s.rng.Intn(len(worlds))
		}
		ms := 1 + s.rng.Intn(N)
		if s.rng.Intn(2) == 0 {
			ms = N
		}
		honest := 0
		if cur == of {
			honest = of + 1
		}
		v.vget(mp, worlds[of].state(ms, ms+s.rng.Intn(N+1-ms)), keys[s.rng.Intn(len(keys))], honest)
	}
}

// stateChains follows a client that carries on with what it got, from servers that grow, fork, roll back and mix.
func (s *S) stateChains() {
	for tr := 0; tr < s.q(3, 10); tr++ {
		keys := s.keySet(3)
		N := 12
		base := s.fakeMuts(N, keys, "t")
		worlds := []*fakeMap{newFake(base)}
		for i := 0; i < 3; i++ {
			at := s.rng.Intn(N)
			worlds = append(worlds, newFake(append(append([]*pb.MapMutation{}, base[:at]...), s.fakeMuts(N-at, keys, fmt.Sprint("x", i, "-"))...)))
		}
		v := newMV(keys, worlds...)
		var ls [][]*liar
		for _, w := range worlds {
			var r []*liar
			for n := 0; n <= N; n++ {
				r = append(r, w.cut(n).liar())
			}
			ls = append(ls, r)
		}
		for run := 0; run < s.q(60, 300); run++ {
			cur, size, lie, honest := 0, s.rng.Intn(3), 0, true
			pick := func() *liar {
				if lie > 0 && s.rng.Intn(lie) == 0 {
					return ls[s.rng.Intn(len(ls))][s.rng.Intn(N+1)]
				}
				return ls[cur][size]
			}
			mp := mapOf(&liar{
				onMHead: func(q *pb.MapTreeHashRequest) (*mth_, error) { return pick().onMHead(q) },
				onHead:  func(q *pb.LogTreeHashRequest) (*lth, error) { return pick().onHead(q) },
				onCons: func(q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
					return pick().onCons(q)
				},
				onIncl: func(q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) { return pick().onIncl(q) },
				onGet:  func(q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) { return pick().onGet(q) },
			})
			var held *verifiable.MapTreeState
			for step := 0; step < 15; step++ {
				switch s.rng.Intn(6) {
				case 0, 1, 2:
					size = min(N, size+s.rng.Intn(3))
				case 3:
					if s.rng.Intn(3) == 0 {
						cur, honest = s.rng.Intn(len(worlds)), false
					}
				case 4:
					if s.rng.Intn(2) == 0 {
						size, honest = s.rng.Intn(size+1), false
					}
				case 5:
					lie = s.rng.Intn(4)
					honest = honest && lie == 0
				}
				h, hs := 0, 0
				if honest {
					h, hs = cur+1, size
				}
				if r := v.vstate(mp, held, s.rng.Intn(2) == 0, int64(s.rng.Intn(size+2)), h, hs); r != nil {
					held = r
				}
				if held != nil {
					v.vget(mp, held, keys[s.rng.Intn(len(keys))], h)
				}
			}
		}
		v.done()
	}
}

// stateHonest: real services, every held state and size, as the map grows.
func (s *S) stateHonest() {
	for _, c := range []struct {
		w WC
		n int
	}{{WC{}, s.q(9, 16)}, {WC{Backend: "bolt"}, 5}, {WC{Backend: "badger"}, 5}, {WC{Transport: "rest"}, s.q(5, 8)}, {WC{Transport: "grpc"}, s.q(5, 8)}} {
		w := newWorld(c.w)
		keys := s.keySet(4)
		for i, k := range keys {
			if len(k) == 0 {
				keys[i] = []byte("k")
			}
		}
		mp := (&verifiable.Client{Service: w.cl}).Account("77", "key").VerifiableMap("smap")
		var evs []Ev
		v := &cv{Tr: &Tr{hold: &evs}, seen: map[string]bool{}}
		held := []*verifiable.MapTreeState{nil}
		for n := 0; n <= c.n; n++ {
			var fresh []*verifiable.MapTreeState
			for _, h := range held {
				if h != nil && len(held) > 20 && s.rng.Intn(3) > 0 {
					continue
				}
				if r := v.vstate(mp, h, true, 0, 1, n); r != nil && s.rng.Intn(2) == 0 {
					fresh = append(fresh, r)
				}
				for want := int64(-1); want <= int64(n)+1; want++ {
					r := v.vstate(mp, h, false, want, 1, n)
					if r != nil && (h == nil || s.rng.Intn(6) == 0) {
						fresh = append(fresh, r)
					}
				}
				if h != nil {
					v.vget(mp, h, keys[s.rng.Intn(len(keys))], 1)
				}
			}
			held = append(held, fresh...)
			rand.New(rand.NewSource(s.rng.Int63())).Shuffle(len(held), func(i, j int) { held[i], held[j] = held[j], held[i] })
			if len(held) > 40 {
				held = append(held[:40], nil)
			}
			for _, st := range s.randomSchedule(1, len(keys)) {
				m := s.mut(st, keys)
				if m.Act == "delete" {
					mp.Delete(ctx, m.Key)
				} else if m.Act == "update" {
					mp.Update(ctx, m.Key, m.Val, m.Prev)
				} else {
					mp.Set(ctx, m.Key, m.Val)
				}
			}
		}
		read := func(l *verifiable.Log) []*pb.LeafData {
			rv := []*pb.LeafData{}
			for e := range l.Entries(ctx, 0, int64(c.n)) {
				rv = append(rv, e)
			}
			return rv
		}
		v2 := newMV(keys, &fakeMap{muts: read(mp.MutationLog()), heads: read(mp.TreeHeadLog())})
		for _, e := range evs {
			v2.emit(e)
		}
		w.close()
	}
}
