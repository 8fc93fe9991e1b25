// Command drv runs the real code of the repository and records what it does as
// traces for the specifications in ../spec.
package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/status"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

var ctx = context.Background()

// Ev is one event of a trace.
type Ev map[string]any

// Tr is a trace being written.
type Tr struct {
	f    *os.File
	n    int
	hold *[]Ev // keep the events here instead
}

var outDir string
var nTraces int
var traceMu sync.Mutex
var stats = map[string]int{}

func newTrace() *Tr {
	traceMu.Lock()
	defer traceMu.Unlock()
	nTraces++
	f, err := os.Create(filepath.Join(outDir, fmt.Sprintf("t%d.ndjson", nTraces)))
	must(err)
	return &Tr{f: f}
}

func (t *Tr) emit(e Ev) {
	if t.hold != nil {
		*t.hold = append(*t.hold, e)
		return
	}
	b, err := json.Marshal(e)
	must(err)
	_, err = t.f.Write(append(b, '\n'))
	must(err)
	t.n++
	statMu.Lock()
	defer statMu.Unlock()
	stats["events"]++
	stats["ev_"+e["ev"].(string)]++
}

var statMu sync.Mutex

// must stops the driver on a failure of the harness itself.
func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func hxs(bs [][]byte) []string {
	rv := make([]string, len(bs))
	for i, b := range bs {
		rv[i] = hx(b)
	}
	return rv
}

func leafHash(b []byte) []byte {
	h := sha256.New()
	h.Write([]byte{0})
	h.Write(b)
	return h.Sum(nil)
}

func nodeHash(l, r []byte) []byte {
	h := sha256.New()
	h.Write([]byte{1})
	h.Write(l)
	h.Write(r)
	return h.Sum(nil)
}

const big = 1 << 30

func clamp(n int64) int64 {
	if n > big {
		return big
	}
	if n < -big {
		return -big
	}
	return n
}

// code names the kind of an error.
func code(err error) string {
	if err == nil {
		return "OK"
	}
	s, ok := status.FromError(err)
	if ok {
		return s.Code().String()
	}
	return "Unknown"
}

type panicErr struct{ v any }

func (p panicErr) Error() string { return fmt.Sprint("panic: ", p.v) }

var callTimeout = 30 * time.Second

// guard calls f, which must not panic, hang or answer nothing without an error.
func guard[T any](f func() (*T, error)) (*T, string) {
	type res struct {
		v   *T
		err error
	}
	ch := make(chan res, 1)
	go func() {
		var r res
		defer func() {
			if p := recover(); p != nil {
				r = res{nil, panicErr{p}}
			}
			ch <- r
		}()
		r.v, r.err = f()
	}()
	select {
	case r := <-ch:
		if p, ok := r.err.(panicErr); ok {
			statMu.Lock()
			stats["panics"]++
			statMu.Unlock()
			fmt.Fprintln(os.Stderr, p.Error())
			return nil, "PANIC"
		}
		if r.err == nil && r.v == nil {
			return nil, "NIL"
		}
		if r.err != nil {
			lastErr.Store(r.err.Error())
			return nil, code(r.err)
		}
		return r.v, "OK"
	case <-time.After(callTimeout):
		hangs++
		if hangs > 3 { // enough said: the event is on record when the next trace starts
			os.Exit(4)
		}
		return nil, "HANG"
	}
}

var hangs int

var lastErr atomic.Value // what the latest error said, for the record only

// guardErr is guard for functions that only return an error; the verdict is "OK", "FAIL", "PANIC" or "HANG".
func guardErr(f func() error) string {
	_, c := guard(func() (*struct{}, error) { return &struct{}{}, f() })
	switch c {
	case "OK", "PANIC", "HANG":
		return c
	default:
		return "FAIL"
	}
}

// Obj addresses a log or map of the service under test.
type Obj struct {
	Acc, Name, Kind string
	Key             string // API key
}

func (o Obj) id() string { return fmt.Sprintf("%q %q %s", o.Acc, o.Name, o.Kind) }

func (o Obj) acc() *pb.AccountRef { return &pb.AccountRef{Id: o.Acc, ApiKey: o.Key} }

func (o Obj) log(lt string) *pb.LogRef {
	return &pb.LogRef{Account: o.acc(), Name: o.Name, LogType: ltOf(lt)}
}

func (o Obj) mp() *pb.MapRef { return &pb.MapRef{Account: o.acc(), Name: o.Name} }

func ltOf(lt string) pb.LogType {
	switch lt {
	case "log":
		return pb.LogType_STRUCT_TYPE_LOG
	case "mut":
		return pb.LogType_STRUCT_TYPE_MUTATION_LOG
	case "head":
		return pb.LogType_STRUCT_TYPE_TREEHEAD_LOG
	}
	panic("bad log type")
}

type service = pb.VerifiableDataStructuresServiceServer

// Rec runs requests against a service and records them.
type Rec struct {
	*Tr
	svc  service
	dump map[string][][]byte // leaf inputs as last read, by object and log type
	flag bool                // a storage access may fail now
	turn int                 // says which way the next request goes
	hist *[]Ev               // if set, collects the events
}

// sv is what the next request goes to: sometimes the service itself, sometimes the client library on top of it.
func (r *Rec) sv() service {
	r.turn = (r.turn*1103515245 + 12345) & 0x7fffffff
	if r.turn>>16&1 == 0 {
		return hiLevel{service: r.svc}
	}
	return r.svc
}

// hiLevel answers requests by way of the client library's objects.
type hiLevel struct{ service }

func (h hiLevel) log(l *pb.LogRef) *verifiable.Log {
	a := (&verifiable.Client{Service: h.service}).Account(l.Account.Id, l.Account.ApiKey)
	switch l.LogType {
	case pb.LogType_STRUCT_TYPE_LOG:
		return a.VerifiableLog(l.Name)
	case pb.LogType_STRUCT_TYPE_MUTATION_LOG:
		return a.VerifiableMap(l.Name).MutationLog()
	case pb.LogType_STRUCT_TYPE_TREEHEAD_LOG:
		return a.VerifiableMap(l.Name).TreeHeadLog()
	}
	panic("bad log type")
}

func (h hiLevel) mp(m *pb.MapRef) *verifiable.Map {
	return (&verifiable.Client{Service: h.service}).Account(m.Account.Id, m.Account.ApiKey).VerifiableMap(m.Name)
}

func (h hiLevel) LogAddEntry(c context.Context, q *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	p, err := h.log(q.Log).Add(c, q.Value)
	if err != nil {
		return nil, err
	}
	return &pb.LogAddEntryResponse{LeafHash: p.LeafHash()}, nil
}

func (h hiLevel) MapSetValue(c context.Context, q *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	var p verifiable.MapUpdatePromise
	var err error
	m := q.Mutation
	switch {
	case m.Timestamp != "": // the library has no words for it
		return h.service.MapSetValue(c, q)
	case m.Action == "set" && m.PreviousLeafHash == nil:
		p, err = h.mp(q.Map).Set(c, m.Key, m.Value)
	case m.Action == "update":
		p, err = h.mp(q.Map).Update(c, m.Key, m.Value, m.PreviousLeafHash)
	case m.Action == "delete" && m.PreviousLeafHash == nil && m.Value == nil:
		p, err = h.mp(q.Map).Delete(c, m.Key)
	default: // nor for this
		return h.service.MapSetValue(c, q)
	}
	if err != nil {
		return nil, err
	}
	return &pb.MapSetValueResponse{LeafHash: p.LeafHash()}, nil
}

func (h hiLevel) LogTreeHash(c context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return h.log(q.Log).TreeHead(c, q.TreeSize)
}

func (h hiLevel) LogInclusionProof(c context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	if len(q.MtlHash) == 0 {
		return h.log(q.Log).InclusionProofByIndex(c, q.TreeSize, q.LeafIndex)
	}
	return h.log(q.Log).InclusionProof(c, q.TreeSize, q.MtlHash)
}

func (h hiLevel) LogConsistencyProof(c context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return h.log(q.Log).ConsistencyProof(c, q.FromSize, q.TreeSize)
}

func (h hiLevel) MapTreeHash(c context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return h.mp(q.Map).TreeHead(c, q.TreeSize)
}

func (h hiLevel) MapGetValue(c context.Context, q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return h.mp(q.Map).Get(c, q.Key, q.TreeSize)
}

func (r *Rec) emit(e Ev) {
	if r.flag {
		e["f"] = true
	} else if e["code"] == "Internal" {
		e["why"] = lastErr.Load()
	}
	if r.hist != nil {
		*r.hist = append(*r.hist, e)
	}
	r.Tr.emit(e)
}

func newRec(t *Tr, s service) *Rec { return &Rec{Tr: t, svc: s, dump: map[string][][]byte{}} }

func (r *Rec) reset() {
	r.emit(Ev{"ev": "reset"})
	r.dump = map[string][][]byte{}
}

func (r *Rec) add(o Obj, li, ex []byte, fmt_ pb.DataFormat) string {
	v, c := guard(func() (*pb.LogAddEntryResponse, error) {
		return r.sv().LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: o.log("log"), Value: &pb.LeafData{LeafInput: li, ExtraData: ex, Format: fmt_}})
	})
	r.emit(Ev{"ev": "add", "o": o.id(), "kind": o.Kind, "li": hx(li), "ex": hx(ex), "fmt": int(fmt_), "code": c, "lh": hx(v.GetLeafHash())})
	return c
}

// Mut is a mutation request.
type Mut struct {
	Act  string
	Key  []byte
	Val  *pb.LeafData
	Prev []byte
	Ts   string // not the caller's to say
}

func (r *Rec) set(o Obj, m Mut) (string, []byte) {
	v, c := guard(func() (*pb.MapSetValueResponse, error) {
		return r.sv().MapSetValue(ctx, &pb.MapSetValueRequest{Map: o.mp(), Mutation: &pb.MapMutation{Action: m.Act, Key: m.Key, Value: m.Val, PreviousLeafHash: m.Prev, Timestamp: m.Ts}})
	})
	r.emit(Ev{"ev": "set", "o": o.id(), "kind": o.Kind, "act": m.Act, "key": hx(m.Key), "hv": m.Val != nil,
		"li": hx(m.Val.GetLeafInput()), "ex": hx(m.Val.GetExtraData()), "fmt": int(m.Val.GetFormat()), "prev": hx(m.Prev), "code": c, "lh": hx(v.GetLeafHash())})
	return c, v.GetLeafHash()
}

// entry turns an entry into its record.
func entry(lt string, e *pb.LeafData) Ev {
	rv := Ev{"li": hx(e.GetLeafInput()), "ex": hx(e.GetExtraData()), "fmt": int(e.GetFormat())}
	switch lt {
	case "mut":
		var m pb.MapMutation
		ok := json.Unmarshal(e.GetExtraData(), &m) == nil
		rv["okp"] = ok
		rv["ts"], rv["act"], rv["key"], rv["hv"] = m.Timestamp, m.Action, hx(m.Key), m.Value != nil
		rv["vli"], rv["vex"], rv["vfmt"], rv["prev"] = hx(m.Value.GetLeafInput()), hx(m.Value.GetExtraData()), int(m.Value.GetFormat()), hx(m.PreviousLeafHash)
	case "head":
		var m pb.MapTreeHashResponse
		ok := json.Unmarshal(e.GetExtraData(), &m) == nil
		rv["okp"] = ok
		rv["root"], rv["ms"], rv["mroot"] = hx(m.RootHash), clamp(m.GetMutationLog().GetTreeSize()), hx(m.GetMutationLog().GetRootHash())
	}
	return rv
}

func entries(lt string, es []*pb.LeafData) []Ev {
	rv := []Ev{}
	for _, e := range es {
		rv = append(rv, entry(lt, e))
	}
	return rv
}

func (r *Rec) fetchRaw(o Obj, lt string, first, last int64) (*pb.LogFetchEntriesResponse, string) {
	return guard(func() (*pb.LogFetchEntriesResponse, error) {
		return r.svc.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: o.log(lt), First: first, Last: last})
	})
}

// ents reads a log completely.
func (r *Rec) ents(o Obj, lt string) int {
	n := int64(-1)
	if !r.flag {
		if h, c := r.headRaw(o, lt, 0); c == "OK" {
			n = h.TreeSize
		}
	}
	v, c := r.fetchRaw(o, lt, 0, 0)
	var d [][]byte
	for _, e := range v.GetValues() {
		d = append(d, e.GetLeafInput())
	}
	if c == "OK" || !r.flag {
		r.dump[o.id()+lt] = d
	}
	r.emit(Ev{"ev": "ents", "o": o.id(), "kind": o.Kind, "lt": lt, "n": clamp(n), "code": c, "v": entries(lt, v.GetValues())})
	return len(d)
}

func (r *Rec) fetch(o Obj, lt string, first, last int64) {
	v, c := r.fetchRaw(o, lt, first, last)
	r.emit(Ev{"ev": "fetch", "o": o.id(), "kind": o.Kind, "lt": lt, "first": clamp(first), "last": clamp(last), "code": c, "v": entries(lt, v.GetValues())})
}

func (r *Rec) clog(o Obj, lt string) *verifiable.Log {
	cl := &verifiable.Client{Service: r.svc}
	if lt == "log" {
		return cl.Account(o.Acc, o.Key).VerifiableLog(o.Name)
	}
	m := cl.Account(o.Acc, o.Key).VerifiableMap(o.Name)
	if lt == "mut" {
		return m.MutationLog()
	}
	return m.TreeHeadLog()
}

func (r *Rec) cmap(o Obj) *verifiable.Map {
	return (&verifiable.Client{Service: r.svc}).Account(o.Acc, o.Key).VerifiableMap(o.Name)
}

// single reads one entry through the client.
func (r *Rec) single(o Obj, lt string, i int64) {
	v, c := guard(func() (*pb.LeafData, error) { return r.clog(o, lt).Entry(ctx, i) })
	es := []Ev{}
	if c == "OK" {
		es = append(es, entry(lt, v))
	}
	r.emit(Ev{"ev": "fetch", "o": o.id(), "kind": o.Kind, "lt": lt, "first": clamp(i), "last": clamp(i + 1), "code": c, "v": es})
}

// stream reads a range through the streaming client.
func (r *Rec) stream(o Obj, lt string, first, last int64) {
	type rs struct{ v []*pb.LeafData }
	v, c := guard(func() (*rs, error) {
		x := &rs{}
		cx, cancel := context.WithCancel(ctx)
		defer cancel()
		for e := range r.clog(o, lt).Entries(cx, first, last) {
			x.v = append(x.v, e)
			if int64(len(x.v)) > last-first+1000 {
				break
			}
		}
		return x, nil
	})
	es := []Ev{}
	if v != nil {
		es = entries(lt, v.v)
	}
	r.emit(Ev{"ev": "stream", "o": o.id(), "kind": o.Kind, "lt": lt, "first": first, "last": last, "code": c, "v": es})
}

func (r *Rec) headRaw(o Obj, lt string, size int64) (*pb.LogTreeHashResponse, string) {
	return guard(func() (*pb.LogTreeHashResponse, error) {
		return r.sv().LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: o.log(lt), TreeSize: size})
	})
}

func (r *Rec) head(o Obj, lt string, size int64) *pb.LogTreeHashResponse {
	v, c := r.headRaw(o, lt, size)
	r.emit(Ev{"ev": "head", "o": o.id(), "kind": o.Kind, "lt": lt, "size": clamp(size), "code": c, "rs": clamp(v.GetTreeSize()), "root": hx(v.GetRootHash())})
	return v
}

func (r *Rec) inclEv(o Obj, lt, by string, idx int64, h []byte, size int64, v *pb.LogInclusionProofResponse, c string) {
	ver := "NONE"
	if c == "OK" {
		leaf := h
		if by == "index" {
			leaf = nil
			if d := r.dump[o.id()+lt]; idx >= 0 && idx < int64(len(d)) {
				leaf = leafHash(d[idx])
			}
		}
		ver = "NOHEAD"
		if hd, hc := r.headRaw(o, lt, v.TreeSize); hc == "OK" {
			ver = guardErr(func() error { return verifiable.VerifyLogInclusionProof(v, leaf, hd) })
		}
	}
	r.emit(Ev{"ev": "incl", "o": o.id(), "kind": o.Kind, "lt": lt, "by": by, "idx": clamp(idx), "h": hx(h), "size": clamp(size), "code": c,
		"ri": clamp(v.GetLeafIndex()), "rs": clamp(v.GetTreeSize()), "path": hxs(v.GetAuditPath()), "ver": ver})
}

func (r *Rec) inclIdx(o Obj, lt string, idx, size int64) {
	v, c := guard(func() (*pb.LogInclusionProofResponse, error) {
		return r.sv().LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: o.log(lt), LeafIndex: idx, TreeSize: size})
	})
	r.inclEv(o, lt, "index", idx, nil, size, v, c)
}

func (r *Rec) inclHash(o Obj, lt string, h []byte, size int64) {
	v, c := guard(func() (*pb.LogInclusionProofResponse, error) {
		return r.sv().LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: o.log(lt), MtlHash: h, TreeSize: size})
	})
	r.inclEv(o, lt, "hash", 0, h, size, v, c)
}

func (r *Rec) cons(o Obj, lt string, from, size int64) {
	v, c := guard(func() (*pb.LogConsistencyProofResponse, error) {
		return r.sv().LogConsistencyProof(ctx, &pb.LogConsistencyProofRequest{Log: o.log(lt), FromSize: from, TreeSize: size})
	})
	ver := "NONE"
	if c == "OK" {
		ver = "NOHEAD"
		a, ac := r.headRaw(o, lt, from)
		b, bc := r.headRaw(o, lt, v.TreeSize)
		if ac == "OK" && bc == "OK" {
			ver = guardErr(func() error { return verifiable.VerifyLogConsistencyProof(v, a, b) })
		}
	}
	r.emit(Ev{"ev": "cons", "o": o.id(), "kind": o.Kind, "lt": lt, "from": clamp(from), "size": clamp(size), "code": c,
		"rf": clamp(v.GetFromSize()), "rs": clamp(v.GetTreeSize()), "path": hxs(v.GetAuditPath()), "ver": ver})
}

func (r *Rec) mheadRaw(o Obj, size int64) (*pb.MapTreeHashResponse, string) {
	return guard(func() (*pb.MapTreeHashResponse, error) {
		return r.sv().MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: o.mp(), TreeSize: size})
	})
}

func (r *Rec) mhead(o Obj, size int64) {
	v, c := r.mheadRaw(o, size)
	r.emit(Ev{"ev": "mhead", "o": o.id(), "kind": o.Kind, "size": clamp(size), "code": c, "root": hx(v.GetRootHash()),
		"ms": clamp(v.GetMutationLog().GetTreeSize()), "mroot": hx(v.GetMutationLog().GetRootHash())})
}

// path gives the non-empty elements of an audit path with their depths.
func path(p [][]byte) [][2]any {
	rv := [][2]any{}
	for i, b := range p {
		if len(b) != 0 {
			rv = append(rv, [2]any{i + 1, hx(b)})
		}
	}
	return rv
}

func (r *Rec) getRaw(o Obj, key []byte, size int64) (*pb.MapGetValueResponse, string) {
	return guard(func() (*pb.MapGetValueResponse, error) {
		return r.sv().MapGetValue(ctx, &pb.MapGetValueRequest{Map: o.mp(), Key: key, TreeSize: size})
	})
}

func (r *Rec) get(o Obj, key []byte, size int64) {
	v, c := r.getRaw(o, key, size)
	ver, mc, mr := "NONE", "NONE", []byte(nil)
	if c == "OK" {
		var mh *pb.MapTreeHashResponse
		mh, mc = r.mheadRaw(o, size)
		ver = "NOHEAD"
		if mc == "OK" {
			mr = mh.RootHash
			ver = guardErr(func() error { return verifiable.VerifyMapInclusionProof(v, key, mh) })
		}
	}
	r.emit(Ev{"ev": "get", "o": o.id(), "kind": o.Kind, "key": hx(key), "size": clamp(size), "code": c, "rs": clamp(v.GetTreeSize()),
		"li": hx(v.GetValue().GetLeafInput()), "ex": hx(v.GetValue().GetExtraData()), "fmt": int(v.GetValue().GetFormat()),
		"plen": len(v.GetAuditPath()), "path": path(v.GetAuditPath()), "ver": ver, "mcode": mc, "mr": hx(mr)})
}

func writeMeta(extra map[string]any) {
	m := map[string]any{"ntraces": nTraces, "stats": stats}
	for k, v := range extra {
		m[k] = v
	}
	b, err := json.MarshalIndent(m, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(outDir, "meta.json"), b, 0644))
}

var odd = []string{"\n", "\r\n", "\r", "\x00", " ", "\t", "\n\n", "\xef\xbb\xbf", "\xff", "\xc3", "\"", "\\", "%", "=", "\x1a"}

// bytes makes bytes that something on the way might treat differently.
func (s *S) bytes() []byte {
	random := func(n int) []byte {
		b := make([]byte, n)
		s.rng.Read(b)
		return b
	}
	text := []byte(fmt.Sprintf("t%d", s.rng.Intn(1000)))
	o := []byte(odd[s.rng.Intn(len(odd))])
	switch s.rng.Intn(9) {
	case 0, 1:
		return random(1 + s.rng.Intn(140))
	case 2:
		return random([]int{31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097}[s.rng.Intn(23)])
	case 3:
		return append(text, o...)
	case 4:
		return append(o, text...)
	case 5:
		return append(append(text, o...), 'x')
	case 6:
		return o
	case 7:
		return append([]byte{byte(s.rng.Intn(2))}, random([]int{32, 64}[s.rng.Intn(2)])...)
	}
	return []byte([]string{"null", "true", "{}", "[]", "\"\"", "0", "-0", "1e999", "{\"a\":1}", "[\"s\",1]", "AAAA", "00ff", "NaN", "a=b&c"}[s.rng.Intn(14)])
}

func sortedKeys[V any](m map[string]V) []string {
	rv := []string{}
	for k := range m {
		rv = append(rv, k)
	}
	sort.Strings(rv)
	return rv
}
