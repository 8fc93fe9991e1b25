package main

import (
	"bytes"
	"fmt"
	"sync"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
)

// Q is one request. Its answer is given in full and as a projection that does not depend on the
// time at which mutations were made (which is part of their leaf inputs).
type Q struct {
	Op   string // add set fetch head cons incl inclh get mhead, and bad ones that carry their own call
	Lt   string // log mut head
	O    Obj
	A, B int64
	Key  []byte
	H    []byte // leaf hash; nil: that of entry A as read
	M    *pb.MapMutation
	Val  *pb.LeafData
	Bad  func(service) (any, error)
}

func (q *Q) String() string {
	s := fmt.Sprintf("%s %s %s %d %d %s %s", q.Op, q.Lt, q.O.id(), q.A, q.B, hx(q.Key), hx(q.H))
	if q.M != nil {
		s += " " + asJSON(q.M)
	}
	if q.Val != nil {
		s += " " + asJSON(q.Val)
	}
	return s
}

func (q *Q) write() bool { return q.Op == "add" || q.Op == "set" }

// A is an answer.
type A struct{ Code, Full, Proj string }

func mkA(c string, full, proj any) A {
	if c != "OK" {
		// nothing is answered along with an error
		f := asJSON(full)
		if f == "null" {
			f = ""
		}
		return A{c, f, f}
	}
	return A{c, asJSON(full), asJSON(proj)}
}

// projEntry leaves out what depends on the time.
func projEntry(lt string, e *pb.LeafData) any {
	switch lt {
	case "mut":
		m := mutRec(mutOf(e.GetExtraData()))
		delete(m, "ts")
		return m
	case "head":
		x := entry("head", e)
		return []any{x["okp"], x["root"], x["ms"]}
	}
	return []any{hx(e.GetLeafInput()), hx(e.GetExtraData()), int(e.GetFormat())}
}

func (q *Q) run(svc service) A {
	lg := q.O.log(logOr(q.Lt))
	timed := q.Lt != "log"
	switch q.Op {
	case "bad":
		v, c := guard(func() (*any, error) {
			v, err := q.Bad(svc)
			return &v, err
		})
		if v == nil {
			return A{c, "", ""}
		}
		return A{c, asJSON(*v), asJSON(*v)}
	case "add":
		v, c := guard(func() (*pb.LogAddEntryResponse, error) {
			return svc.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: lg, Value: q.Val})
		})
		return mkA(c, v, v)
	case "set":
		v, c := guard(func() (*pb.MapSetValueResponse, error) {
			return svc.MapSetValue(ctx, &pb.MapSetValueRequest{Map: q.O.mp(), Mutation: q.M})
		})
		return mkA(c, v, len(v.GetLeafHash()))
	case "fetch":
		v, c := guard(func() (*pb.LogFetchEntriesResponse, error) {
			return svc.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: lg, First: q.A, Last: q.B})
		})
		p := []any{}
		for _, e := range v.GetValues() {
			p = append(p, projEntry(q.Lt, e))
		}
		return mkA(c, v, p)
	case "head":
		v, c := guard(func() (*pb.LogTreeHashResponse, error) {
			return svc.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: lg, TreeSize: q.A})
		})
		if timed {
			return mkA(c, v, []any{v.GetTreeSize(), len(v.GetRootHash())})
		}
		return mkA(c, v, v)
	case "cons":
		v, c := guard(func() (*pb.LogConsistencyProofResponse, error) {
			return svc.LogConsistencyProof(ctx, &pb.LogConsistencyProofRequest{Log: lg, FromSize: q.A, TreeSize: q.B})
		})
		if timed {
			return mkA(c, v, []any{v.GetFromSize(), v.GetTreeSize(), len(v.GetAuditPath())})
		}
		return mkA(c, v, v)
	case "incl", "inclh":
		rq := &pb.LogInclusionProofRequest{Log: lg, LeafIndex: q.A, TreeSize: q.B}
		if q.Op == "inclh" {
			h := q.H
			if h == nil {
				e, c := guard(func() (*pb.LogFetchEntriesResponse, error) {
					return svc.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: lg, First: q.A, Last: q.A + 1})
				})
				if c != "OK" || len(e.Values) != 1 {
					return A{c, "no entry", "no entry"}
				}
				h = leafHash(e.Values[0].LeafInput)
			}
			rq = &pb.LogInclusionProofRequest{Log: lg, MtlHash: h, TreeSize: q.B}
		}
		v, c := guard(func() (*pb.LogInclusionProofResponse, error) { return svc.LogInclusionProof(ctx, rq) })
		if timed {
			return mkA(c, v, []any{v.GetLeafIndex(), v.GetTreeSize(), len(v.GetAuditPath())})
		}
		return mkA(c, v, v)
	case "get":
		v, c := guard(func() (*pb.MapGetValueResponse, error) {
			return svc.MapGetValue(ctx, &pb.MapGetValueRequest{Map: q.O.mp(), Key: q.Key, TreeSize: q.A})
		})
		return mkA(c, v, v)
	case "mhead":
		v, c := guard(func() (*pb.MapTreeHashResponse, error) {
			return svc.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: q.O.mp(), TreeSize: q.A})
		})
		return mkA(c, v, []any{hx(v.GetRootHash()), v.GetMutationLog().GetTreeSize(), len(v.GetMutationLog().GetRootHash())})
	}
	panic(q.Op)
}

func logOr(lt string) string {
	if lt == "" {
		return "log"
	}
	return lt
}

// randQ makes a request to an object whose size is around n.
func (s *S) randQ(o Obj, n int64, writes float64) *Q {
	vals := [][]byte{[]byte("a"), []byte("b"), {}, []byte("aa"), []byte("set"), {0}, []byte("leaf-a")}
	if s.rng.Intn(4) == 0 {
		vals = append(vals, s.bytes(), s.bytes(), s.bytes())
	}
	val := func() *pb.LeafData {
		v := &pb.LeafData{LeafInput: vals[s.rng.Intn(len(vals))]}
		if s.rng.Intn(2) == 0 {
			v.LeafInput = []byte(fmt.Sprintf("v%d", s.rng.Intn(40)))
		}
		if s.rng.Intn(3) == 0 {
			v.ExtraData = []byte(fmt.Sprintf(`{"x":%d}`, s.rng.Intn(3)))
			v.Format = pb.DataFormat(s.rng.Intn(2))
		}
		return v
	}
	key := func() []byte {
		if s.rng.Intn(12) == 0 {
			return s.bytes()
		}
		k := []string{"k", "kk", "key", "k1", "k2", "\x00", "a/b"}[s.rng.Intn(7)]
		return []byte(k)
	}
	size := func() int64 {
		switch s.rng.Intn(8) {
		case 0, 1:
			return 0
		case 2:
			return n + 1 + s.rng.Int63n(3)
		case 3:
			return n
		}
		return s.rng.Int63n(n + 1)
	}
	q := &Q{O: o, Lt: "log"}
	if o.Kind == "map" {
		q.Lt = []string{"mut", "head"}[s.rng.Intn(2)]
	}
	if s.rng.Float64() < writes {
		if o.Kind == "log" {
			q.Op, q.Val = "add", val()
			return q
		}
		q.Op, q.Lt = "set", ""
		q.M = &pb.MapMutation{Action: []string{"set", "set", "delete", "update"}[s.rng.Intn(4)], Key: key()}
		if q.M.Action != "delete" {
			q.M.Value = val()
		}
		if q.M.Action == "update" {
			q.M.PreviousLeafHash = leafHash(vals[s.rng.Intn(3)])
		}
		return q
	}
	ops := []string{"fetch", "fetch", "head", "cons", "incl", "inclh"}
	if o.Kind == "map" {
		ops = append(ops, "get", "get", "get", "mhead", "mhead")
	}
	q.Op = ops[s.rng.Intn(len(ops))]
	q.A, q.B = size(), size()
	switch q.Op {
	case "cons":
		if s.rng.Intn(4) > 0 && n >= 2 {
			q.B = 2 + s.rng.Int63n(n-1)
			q.A = 1 + s.rng.Int63n(q.B-1)
		}
	case "fetch":
		if s.rng.Intn(4) > 0 && n >= 1 {
			q.B = 1 + s.rng.Int63n(n)
			q.A = s.rng.Int63n(q.B)
		}
	case "incl", "inclh":
		if s.rng.Intn(4) > 0 && n >= 1 {
			q.B = 1 + s.rng.Int63n(n)
			q.A = s.rng.Int63n(q.B)
		}
		if q.Op == "inclh" && q.Lt == "log" && s.rng.Intn(3) == 0 {
			q.H = leafHash(vals[s.rng.Intn(len(vals))])
		}
	case "get":
		q.Key = key()
	}
	return q
}

// allQ are the questions that show everything there is to an object of size n.
func allQ(o Obj, n int64) []*Q {
	rv := []*Q{}
	lts := []string{"log"}
	if o.Kind == "map" {
		lts = []string{"mut", "head"}
		for sz := int64(0); sz <= n; sz++ {
			rv = append(rv, &Q{O: o, Op: "mhead", A: sz})
			for _, k := range []string{"k", "kk", "key", "k1", "k2", "\x00", "a/b", "flush"} {
				rv = append(rv, &Q{O: o, Op: "get", Key: []byte(k), A: sz})
			}
		}
	}
	for _, lt := range lts {
		rv = append(rv, &Q{O: o, Lt: lt, Op: "fetch", A: 0, B: 0}, &Q{O: o, Lt: lt, Op: "head", A: 0})
		for i := int64(0); i < n; i += 1 + n/4 {
			rv = append(rv, &Q{O: o, Lt: lt, Op: "incl", A: i, B: n}, &Q{O: o, Lt: lt, Op: "inclh", A: i, B: n})
			if i > 0 {
				rv = append(rv, &Q{O: o, Lt: lt, Op: "cons", A: i, B: n}, &Q{O: o, Lt: lt, Op: "head", A: i})
			}
		}
	}
	return rv
}

// flush makes sure that everything sent to an object before has been applied: one more addition is
// made and waited for.
var flushN int
var flushMu sync.Mutex

func flush(svc service, o Obj, tag string) bool {
	q := flushQ(o, tag)
	if q.run(svc).Code != "OK" {
		return false
	}
	for i := 0; i < 2000; i++ {
		if o.Kind == "log" {
			if (&Q{O: o, Op: "inclh", Lt: "log", H: leafHash(q.Val.LeafInput), B: 0}).run(svc).Code == "OK" {
				return true
			}
		} else {
			v, c := guard(func() (*pb.MapGetValueResponse, error) {
				return svc.MapGetValue(ctx, &pb.MapGetValueRequest{Map: o.mp(), Key: []byte("flush")})
			})
			if c == "OK" && bytes.Equal(v.Value.GetLeafInput(), q.M.Value.LeafInput) {
				return true
			}
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

func flushQ(o Obj, tag string) *Q {
	v := &pb.LeafData{LeafInput: []byte("flush-" + tag)}
	if o.Kind == "log" {
		return &Q{Op: "add", Lt: "log", O: o, Val: v}
	}
	return &Q{Op: "set", O: o, M: &pb.MapMutation{Action: "set", Key: []byte("flush"), Value: v}}
}

// sizeOf is the size of an object according to a service.
func sizeOf(svc service, o Obj) int64 {
	lt := "log"
	if o.Kind == "map" {
		lt = "mut"
	}
	v, _ := guard(func() (*pb.LogTreeHashResponse, error) {
		return svc.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: o.log(lt)})
	})
	return v.GetTreeSize()
}

func short(s string) string {
	if len(s) <= 64 {
		return s
	}
	return hx(leafHash([]byte(s)))[:40]
}

// same records that two answers have to agree.
func (t *Tr) same(q string, a, b A) {
	e := Ev{"ev": "same", "q": q, "a": a.Code + " " + short(a.Proj), "b": b.Code + " " + short(b.Proj)}
	if e["a"] != e["b"] {
		e["fa"], e["fb"] = clip(a.Proj), clip(b.Proj)
	}
	t.emit(e)
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

// ask records a question about an object and its answer.
func (t *Tr) ask(q *Q, a A) {
	t.emit(Ev{"ev": "ask", "o": q.O.id(), "q": q.String(), "code": a.Code, "ans": short(a.Full)})
}
