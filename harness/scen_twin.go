package main

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	scenarios["C24"] = scenObjects
}

// keyed lets everyone in but those with the API key "denied".
type keyed struct{}

func (keyed) VerifyAllowed(_ context.Context, _, key, _ string, _ pb.Permission) (*verifiable.AccessModifier, error) {
	if key == "denied" {
		return nil, verifiable.ErrNotAuthorized
	}
	return &verifiable.AccessModifier{FieldFilter: verifiable.AllFields}, nil
}

// malformed gives a request that has to be refused.
func (s *S) malformed(o Obj) *Q {
	fs := malformedAll(o)
	return fs[s.rng.Intn(len(fs))]
}

// malformedAll gives requests of every kind that have to be refused.
func malformedAll(o Obj) []*Q {
	lg, mp := o.log("log"), o.mp()
	v := &pb.LeafData{LeafInput: []byte("never")}
	m := func(a string, val *pb.LeafData) *pb.MapMutation {
		return &pb.MapMutation{Action: a, Key: []byte("k"), Value: val}
	}
	add := func(l *pb.LogRef, v *pb.LeafData) func(service) (any, error) {
		return func(x service) (any, error) {
			return nilIf(x.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: l, Value: v}))
		}
	}
	set := func(p *pb.MapRef, m *pb.MapMutation) func(service) (any, error) {
		return func(x service) (any, error) {
			return nilIf(x.MapSetValue(ctx, &pb.MapSetValueRequest{Map: p, Mutation: m}))
		}
	}
	lt := func(n int32) *pb.LogRef {
		return &pb.LogRef{Account: lg.Account, Name: lg.Name, LogType: pb.LogType(n)}
	}
	noAcc := &pb.LogRef{Name: lg.Name}
	noAccM := &pb.MapRef{Name: mp.Name}
	fs := []func(service) (any, error){
		add(lg, nil), add(nil, v), add(noAcc, v), add(lt(1), v), add(lt(2), v), add(lt(3), v), add(lt(-1), v), add(lt(7), nil), add(nil, nil),
		set(mp, nil), set(nil, m("set", v)), set(noAccM, m("set", v)), set(mp, m("set", nil)), set(mp, m("update", nil)), set(mp, m("", v)), set(mp, m("Set", v)),
		set(mp, m("erase", v)), set(mp, m("delete ", nil)), set(nil, nil), set(mp, &pb.MapMutation{}), set(mp, &pb.MapMutation{Action: "erase", Key: []byte("k"), Timestamp: "x"}),
	}
	for _, l := range []*pb.LogRef{nil, noAcc, lt(3), lt(-1), lt(1 << 30)} {
		l := l
		fs = append(fs,
			func(x service) (any, error) { return nilIf(x.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: l})) },
			func(x service) (any, error) { return nilIf(x.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: l})) },
			func(x service) (any, error) {
				return nilIf(x.LogConsistencyProof(ctx, &pb.LogConsistencyProofRequest{Log: l, FromSize: 1, TreeSize: 2}))
			},
			func(x service) (any, error) {
				return nilIf(x.LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: l, LeafIndex: 0, TreeSize: 1}))
			},
			func(x service) (any, error) {
				return nilIf(x.LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: l, MtlHash: leafHash(nil)}))
			})
	}
	for _, p := range []*pb.MapRef{nil, noAccM} {
		p := p
		fs = append(fs,
			func(x service) (any, error) {
				return nilIf(x.MapGetValue(ctx, &pb.MapGetValueRequest{Map: p, Key: []byte("k")}))
			},
			func(x service) (any, error) { return nilIf(x.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: p})) })
	}
	cl := func(x service) *verifiable.Account { return (&verifiable.Client{Service: x}).Account(o.Acc, o.Key) }
	for _, act := range []string{"SET", " set", "set\n", "update\x00", "updat", "delete-all", "noop", "sét", "set,delete"} {
		fs = append(fs, set(mp, m(act, v)), set(mp, m(act, nil)))
	}
	fs = append(fs,
		func(x service) (any, error) { return nilAny(cl(x).VerifiableLog(o.Name).Add(ctx, nil)) },
		func(x service) (any, error) { return nilAny(cl(x).VerifiableMap(o.Name).Set(ctx, []byte("k"), nil)) },
		func(x service) (any, error) {
			return nilAny(cl(x).VerifiableMap(o.Name).Update(ctx, []byte("k"), nil, leafHash(nil)))
		},
		set(mp, &pb.MapMutation{Action: "update", Key: []byte("k"), PreviousLeafHash: leafHash(nil)}),
		set(&pb.MapRef{}, m("set", v)), set(&pb.MapRef{}, m("delete", nil)), add(&pb.LogRef{}, v), add(&pb.LogRef{LogType: 2}, v))
	rv := []*Q{}
	for i := range fs {
		rv = append(rv, &Q{Op: "bad", O: o, A: int64(i), Bad: fs[i]})
	}
	return rv
}

func nilAny[T any](v T, err error) (any, error) {
	if err != nil {
		return nil, err
	}
	return fmt.Sprint(v), nil
}

// nilIf turns a typed nil answer into none.
func nilIf[T any](v *T, err error) (any, error) {
	if v == nil {
		if err == nil {
			return "NIL", nil
		}
		return nil, err
	}
	return v, err
}

type objWorld struct {
	w  *World
	f  *Faulty
	tw map[string]*World
	wc WC
}

var seps = []string{"", "/", ":", ",", "-", "_", "|", ".", " ", "\x00", "\n", ",name:", "\",\"name\":\"", "//", "\t", "+", "=", "&", "#", ";", "\\", "%2f", "@", "log", "map", "0"}

// lookAlikes gives accounts and names that may look alike: joined in any way, cut, trimmed, folded, read as numbers.
func lookAlikes(sep, sep2 string) [][][2]string {
	long := ""
	for len(long) < 300 {
		long += "0123456789abcdef"
	}
	return [][][2]string{
		{{"a", "b" + sep + "c"}, {"a" + sep + "b", "c"}, {"a" + sep + "b" + sep + "c", ""}, {"", "a" + sep + "b" + sep + "c"}, {"a", "b"}, {"b", "a"}},
		{{"a", "b" + sep2}, {"a" + sep2, "b"}, {"a", sep2 + "b"}, {"a", "b"}, {sep2 + "a", "b"}, {"a" + sep2 + "b", "b"}},
		{{"a", "b"}, {"A", "b"}, {"a", "B"}, {"a", "b "}, {" a", "b"}, {"a", "b\x00"}, {"a\x00", "b"}},
		{{"7", "01"}, {"7", "1"}, {"07", "1"}, {"7.0", "1"}, {"7", "1.0"}, {"71", ""}, {"", "71"}},
		{{"a", long}, {"a", long[:299]}, {"a", long[:256]}, {"a", long[:255]}, {long, "a"}, {long[:32], long[32:]}, {long[:64], long[64:]}},
		{{"a", "b"}, {"a", "b/log/mutation"}, {"a", "b/log"}, {"a", "b/mutation"}, {"a/log", "b"}, {"a/map", "b"}, {"log", "map"}, {"map", "log"}},
		{{"a", "é"}, {"a", "e\u0301"}, {"a", "É"}, {"a", "%C3%A9"}, {"é", "a"}, {"a", "?"}},
		{{"a", "0123456789"}, {"a", "0123456788"}, {"a", "1123456789"}, {"a", "x"}, {"b", "x"}, {"ab", "x"}, {"aa", "x"}, {"a", "xx"}, {"", ""}, {"", "a"}, {"a", ""}},
	}
}

func asObjs(pairs [][2]string) []Obj {
	seen := map[[2]string]bool{}
	rv := []Obj{}
	for _, p := range pairs {
		if !seen[p] {
			seen[p] = true
			rv = append(rv, Obj{Acc: p[0], Name: p[1], Kind: "log", Key: "k"}, Obj{Acc: p[0], Name: p[1], Kind: "map", Key: "k"})
		}
	}
	return rv
}

func (s *S) objects() []Obj {
	groups := lookAlikes(seps[s.rng.Intn(len(seps))], seps[s.rng.Intn(len(seps))])
	pairs := groups[s.rng.Intn(len(groups))]
	s.rng.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
	return asObjs(pairs)
}

// objMany has everything that may look alike in one service, each object with a little of its own.
func (s *S) objMany(c WC) {
	pairs := [][2]string{}
	for i, sp := range seps {
		for _, g := range lookAlikes(sp, seps[(i+1+s.rng.Intn(len(seps)-1))%len(seps)]) {
			pairs = append(pairs, g...)
		}
	}
	for i := 0; i < 40; i++ {
		x := make([]byte, s.rng.Intn(4))
		y := make([]byte, s.rng.Intn(4))
		for j := range x {
			x[j] = "ab/ \x00"[s.rng.Intn(5)]
		}
		for j := range y {
			y[j] = "ab/ \x00"[s.rng.Intn(5)]
		}
		pairs = append(pairs, [2]string{string(x), string(y)})
	}
	s.rng.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
	objs := asObjs(pairs)
	if c.Backend != "" { // a file each
		objs = objs[:40]
	}
	w := newWorld(c)
	defer w.close()
	tw := map[string]*World{}
	t := newTrace()
	t.emit(Ev{"ev": "begin"})
	n := map[string]int64{}
	for round := 0; round < 2; round++ {
		for i, o := range objs {
			if round == 0 {
				tw[o.id()] = newWorld(WC{})
				defer tw[o.id()].close()
			} else if s.rng.Intn(2) == 0 {
				continue
			}
			// (most have their own values, some the same as others)
			v := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("%d", i*s.rng.Intn(3))), ExtraData: []byte(fmt.Sprintf("%d.%d", i, round))}
			q := &Q{Op: "add", Lt: "log", O: o, Val: v}
			if o.Kind == "map" {
				q = &Q{Op: "set", O: o, M: &pb.MapMutation{Action: "set", Key: []byte([]string{"k", "kk"}[s.rng.Intn(2)]), Value: v}}
			}
			t.same(q.String(), q.run(w.svc), q.run(tw[o.id()].svc))
			n[o.id()]++
		}
		for _, o := range objs {
			for _, q := range allQ(o, 0) {
				if q.Op != "get" || q.Key[0] == 'k' && len(q.Key) < 3 {
					t.same(q.String(), q.run(w.svc), q.run(tw[o.id()].svc))
				}
			}
		}
	}
}

func scenObjects(s *S) {
	cfgs := []WC{{}, {Backend: "bolt"}, {Backend: "badger"}, {Mutator: "batch", BatchSize: 3, BufferSize: 10, Timeout: 3 * time.Millisecond}, {Backend: "bolt", Mutator: "batch", BatchSize: 100, BufferSize: 100, Timeout: 2 * time.Millisecond}}
	s.objMany(WC{})
	s.objMany(WC{Backend: "bolt"})
	s.objMany(WC{Backend: "badger"})
	for round := 0; round < s.q(3, 16); round++ {
		for _, c := range cfgs {
			s.objRun(c)
		}
	}
}

func (s *S) objRun(c WC) {
	batch := c.Mutator == "batch"
	var f *Faulty
	c.Policy = keyed{}
	if c.Backend == "bolt" && !batch {
		c.Wrap = func(w verifiable.StorageWriter) verifiable.StorageWriter { f = newFaulty(w); return f }
	}
	w := newWorld(c)
	defer w.close()
	objs := s.objects()
	twc := c
	twc.Wrap = nil
	twc.Backend = "memory"
	tw := map[string]*World{}
	for _, o := range objs {
		tw[o.id()] = newWorld(twc)
		defer tw[o.id()].close()
	}
	t := newTrace()
	t.emit(Ev{"ev": "begin"})
	asked := map[string][]*Q{}
	ask := func(q *Q) {
		a := q.run(w.svc)
		t.ask(q, a)
		t.same(q.String(), a, q.run(tw[q.O.id()].svc))
		l := append(asked[q.O.id()], q)
		if len(l) > 12 {
			l = l[1:]
		}
		asked[q.O.id()] = l
	}
	re := func(n int) { // others' answers are what they were
		for i := 0; i < n; i++ {
			o := objs[s.rng.Intn(len(objs))]
			if l := asked[o.id()]; len(l) > 0 {
				q := l[s.rng.Intn(len(l))]
				t.ask(q, q.run(w.svc))
			}
		}
	}
	pick := func() Obj {
		o := objs[s.rng.Intn(len(objs))]
		o.Key = []string{"k", "", "other", o.Acc, o.Name}[s.rng.Intn(5)]
		return o
	}
	fl := 0
	steps := s.q(200, 600)
	if batch {
		steps /= 4
	}
	for i := 0; i < steps; i++ {
		switch x := s.rng.Intn(10); {
		case x < 4:
			k := 1
			if batch {
				k = 1 + s.rng.Intn(6)
			}
			touched := map[string]Obj{}
			for j := 0; j < k; j++ {
				o := pick()
				q := s.randQ(o, 5, 1)
				a := q.run(w.svc)
				t.emit(Ev{"ev": "write", "o": o.id(), "code": a.Code})
				t.same(q.String(), a, q.run(tw[o.id()].svc))
				touched[o.id()] = o
			}
			if batch {
				for _, id := range sortedKeys(touched) {
					o := touched[id]
					fl++
					tag := fmt.Sprint(fl)
					ok := flush(w.svc, o, tag)
					t.emit(Ev{"ev": "same", "a": ok, "b": flush(tw[id].svc, o, tag)})
					t.emit(Ev{"ev": "write", "o": o.id(), "code": "OK"})
				}
			}
			re(6)
		case x == 4: // refused
			o := pick()
			o.Key = "denied"
			q := s.randQ(o, 5, 0.7)
			t.emit(Ev{"ev": "bad", "q": q.String(), "code": q.run(w.svc).Code})
			re(3)
		case x == 5: // malformed
			q := s.malformed(pick())
			t.emit(Ev{"ev": "bad", "q": q.String(), "code": q.run(w.svc).Code})
			re(3)
		case x == 6 && f != nil: // failing
			o := pick()
			q := s.randQ(o, sizeOf(w.svc, o), 0.8)
			f.arm(s.rng.Intn(40))
			a := q.run(w.svc)
			f.arm(-1)
			if a.Code == "OK" {
				if q.write() {
					t.emit(Ev{"ev": "write", "o": o.id(), "code": a.Code})
				}
				t.same(q.String(), a, q.run(tw[o.id()].svc))
			}
			re(6)
		default:
			o := pick()
			ask(s.randQ(o, sizeOf(w.svc, o), 0))
		}
	}
	t = s.objConcurrent(w, tw, objs, batch)
	for _, o := range objs {
		n := sizeOf(w.svc, o)
		t.emit(Ev{"ev": "same", "a": n, "b": sizeOf(tw[o.id()].svc, o)})
		for _, q := range allQ(o, n) {
			if n > 12 && !s.thorough && s.rng.Intn(3) > 0 {
				continue
			}
			t.same(q.String(), q.run(w.svc), q.run(tw[o.id()].svc))
		}
	}
}

// objConcurrent works on all objects at the same time, and on the twins one after the other.
func (s *S) objConcurrent(w *World, tw map[string]*World, objs []Obj, batch bool) *Tr {
	t := newTrace()
	t.emit(Ev{"ev": "begin"})
	qs := make([][]*Q, len(objs))
	as := make([][]A, len(objs))
	for i, o := range objs {
		n := sizeOf(w.svc, o)
		for j := 0; j < s.q(12, 40); j++ {
			wr := 0.5
			if batch {
				wr = 1
			}
			qs[i] = append(qs[i], s.randQ(o, n, wr))
		}
		as[i] = make([]A, len(qs[i]))
	}
	var wg sync.WaitGroup
	for i := range objs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j, q := range qs[i] {
				as[i][j] = q.run(w.svc)
			}
			if batch && !flush(w.svc, objs[i], "end") {
				as[i][0].Code = "HANG"
			}
		}(i)
	}
	wg.Wait()
	for i, o := range objs {
		for j, q := range qs[i] {
			t.same(q.String(), as[i][j], q.run(tw[o.id()].svc))
		}
		if batch {
			flush(tw[o.id()].svc, o, "end")
		}
	}
	return t
}
