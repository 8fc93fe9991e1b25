package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() { scenarios["C14"] = scenLin }

// Gates ----------------------------------------------------------------------

type procKey struct{}

// gproc is a caller that can be held at its storage accesses.
type gproc struct {
	fine  bool
	open  int32         // let it run
	at    chan string   // where it stopped, or "done"
	grant chan struct{} // go on
}

func (p *gproc) stop(where string) {
	if atomic.LoadInt32(&p.open) == 1 {
		return
	}
	p.at <- where
	<-p.grant
}

// Gate holds callers before and after each transaction, and (fine) at each access.
type Gate struct {
	W verifiable.StorageWriter
}

func gateOf(c context.Context) *gproc {
	p, _ := c.Value(procKey{}).(*gproc)
	return p
}

func (g *Gate) ExecuteReadOnly(c context.Context, ns []byte, fn func(context.Context, verifiable.KeyReader) error) error {
	p := gateOf(c)
	if p == nil {
		return g.W.ExecuteReadOnly(c, ns, fn)
	}
	p.stop("begin")
	err := g.W.ExecuteReadOnly(c, ns, func(c2 context.Context, kr verifiable.KeyReader) error {
		return fn(c2, &gatedReader{p, kr})
	})
	p.stop("end")
	return err
}

func (g *Gate) ExecuteUpdate(c context.Context, ns []byte, fn func(context.Context, verifiable.KeyWriter) error) error {
	p := gateOf(c)
	if p == nil {
		return g.W.ExecuteUpdate(c, ns, fn)
	}
	p.stop("begin")
	err := g.W.ExecuteUpdate(c, ns, func(c2 context.Context, kw verifiable.KeyWriter) error {
		return fn(c2, &gatedWriter{p, kw})
	})
	p.stop("end")
	return err
}

type gatedReader struct {
	p *gproc
	r verifiable.KeyReader
}

func (r *gatedReader) Get(c context.Context, key []byte, v proto.Message) error {
	if r.p.fine {
		r.p.stop("get")
	}
	return r.r.Get(c, key, v)
}

type gatedWriter struct {
	p *gproc
	w verifiable.KeyWriter
}

func (r *gatedWriter) Get(c context.Context, key []byte, v proto.Message) error {
	if r.p.fine {
		r.p.stop("get")
	}
	return r.w.Get(c, key, v)
}

func (r *gatedWriter) Set(c context.Context, key []byte, v proto.Message) error {
	if r.p.fine {
		r.p.stop("set")
	}
	return r.w.Set(c, key, v)
}

// Jitter sleeps now and then inside transactions.
type Jitter struct {
	W verifiable.StorageWriter
	n uint64
}

func (j *Jitter) nap() {
	n := atomic.AddUint64(&j.n, 1)
	x := n * 0x9E3779B97F4A7C15 >> 58
	switch {
	case x < 3:
		time.Sleep(time.Duration(x*20+5) * time.Microsecond)
	case x < 12:
		time.Sleep(0)
	}
}

func (j *Jitter) ExecuteReadOnly(c context.Context, ns []byte, fn func(context.Context, verifiable.KeyReader) error) error {
	j.nap()
	return j.W.ExecuteReadOnly(c, ns, func(c context.Context, kr verifiable.KeyReader) error {
		return fn(c, &jitterReader{j, kr})
	})
}

func (j *Jitter) ExecuteUpdate(c context.Context, ns []byte, fn func(context.Context, verifiable.KeyWriter) error) error {
	j.nap()
	return j.W.ExecuteUpdate(c, ns, func(c context.Context, kw verifiable.KeyWriter) error {
		return fn(c, &jitterWriter{j, kw})
	})
}

type jitterReader struct {
	j *Jitter
	r verifiable.KeyReader
}

func (r *jitterReader) Get(c context.Context, key []byte, v proto.Message) error {
	r.j.nap()
	return r.r.Get(c, key, v)
}

type jitterWriter struct {
	j *Jitter
	w verifiable.KeyWriter
}

func (r *jitterWriter) Get(c context.Context, key []byte, v proto.Message) error {
	r.j.nap()
	return r.w.Get(c, key, v)
}

func (r *jitterWriter) Set(c context.Context, key []byte, v proto.Message) error {
	r.j.nap()
	return r.w.Set(c, key, v)
}

// Operations -----------------------------------------------------------------

// lop is an operation on one object. w: leaf hash of what a log addition adds.
type lop struct {
	o     Obj
	write bool
	w     string
	run   func(context.Context, service) Ev
}

// hist is one history being recorded.
type hist struct {
	mu    sync.Mutex
	evs   []Ev
	ids   int
	objs  map[string]Obj
	keys  map[string]bool
	calls map[int]Ev
}

func newHist() *hist {
	return &hist{objs: map[string]Obj{}, keys: map[string]bool{}, calls: map[int]Ev{}}
}

func (h *hist) call(op *lop) int {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.ids++
	h.objs[op.o.id()] = op.o
	e := Ev{"ev": "call", "id": h.ids, "o": op.o.id(), "w": op.w}
	h.calls[h.ids] = e
	h.evs = append(h.evs, e)
	return h.ids
}

func (h *hist) ret(id int, op *lop, a Ev) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if a["ev"] == "set" { // the answer tells which entry of the mutation log it was
		h.calls[id]["w"] = a["lh"]
	}
	if k, ok := a["key"]; ok {
		h.keys[k.(string)] = true
	}
	h.evs = append(h.evs, Ev{"ev": "ret", "id": id, "o": op.o.id(), "a": a})
}

// finish writes the history down, with what the objects contain now.
func (h *hist) finish(t *Tr, svc service, deferred bool) {
	t.emit(Ev{"ev": "begin", "deferred": deferred})
	for _, k := range sortedKeys(h.keys) {
		t.emit(Ev{"ev": "keys", "key": k})
	}
	r := newRec(t, svc)
	for _, id := range sortedKeys(h.objs) {
		o := h.objs[id]
		lts := []string{"log"}
		if o.Kind == "map" {
			lts = []string{"mut", "head"}
		}
		for _, lt := range lts {
			v, c := r.fetchRaw(o, lt, 0, 0)
			t.emit(Ev{"ev": "final", "o": id, "kind": o.Kind, "lt": lt, "code": c, "v": entries(lt, v.GetValues())})
		}
	}
	h.mu.Lock()
	evs := append([]Ev(nil), h.evs...)
	h.mu.Unlock()
	for _, e := range evs {
		t.emit(e)
	}
	t.emit(Ev{"ev": "end"})
}

// linGen makes operations.
type linGen struct {
	rng  *rand.Rand
	logs []Obj
	maps []Obj
	keys [][]byte
	vals int  // counter of values
	rest bool // only what REST can express
	max  int  // about how large objects get
	adds map[string]int
}

func (g *linGen) data(li []byte) *pb.LeafData {
	h := leafHash(li)
	return &pb.LeafData{LeafInput: li, ExtraData: h[:h[0]%5], Format: pb.DataFormat(0)}
}

// size of an object, roughly or 0 for the latest
func (g *linGen) size() int64 {
	if g.rng.Intn(2) == 0 {
		return 0
	}
	return int64(g.rng.Intn(g.max + 2))
}

func (g *linGen) lh(o Obj) []byte {
	return leafHash([]byte(fmt.Sprintf("%s-%d", o.Name, g.rng.Intn(g.adds[o.id()]+2))))
}

func (g *linGen) write(o Obj) *lop {
	if o.Kind == "log" {
		n := g.adds[o.id()]
		if n > 0 && g.rng.Intn(3) == 0 {
			n = g.rng.Intn(n)
		} else {
			g.adds[o.id()] = n + 1
		}
		li := []byte(fmt.Sprintf("%s-%d", o.Name, n))
		d := g.data(li)
		return &lop{o: o, write: true, w: hx(leafHash(li)), run: func(c context.Context, svc service) Ev {
			v, cd := guard(func() (*pb.LogAddEntryResponse, error) {
				return svc.LogAddEntry(c, &pb.LogAddEntryRequest{Log: o.log("log"), Value: proto.Clone(d).(*pb.LeafData)})
			})
			return Ev{"ev": "add", "li": hx(li), "ex": hx(d.ExtraData), "fmt": int(d.Format), "code": cd, "lh": hx(v.GetLeafHash())}
		}}
	}
	g.vals++
	m := &pb.MapMutation{Key: g.keys[g.rng.Intn(len(g.keys))]}
	val := func(i int) []byte { return []byte(fmt.Sprintf("%s-v%d", o.Name, i)) }
	switch x := g.rng.Intn(6); {
	case x < 3:
		m.Action, m.Value = "set", g.data(val(g.vals))
		if !g.rest && g.rng.Intn(3) == 0 { // a value seen before; something else makes the request unlike others
			m.Value = g.data(val(1 + g.rng.Intn(g.vals)))
			m.PreviousLeafHash = leafHash(val(-g.vals))
		}
	case x == 3 && !g.rest:
		m.Action, m.PreviousLeafHash = "delete", leafHash(val(-g.vals))
	default:
		m.Action, m.Value = "update", g.data(val(g.vals))
		switch g.rng.Intn(3) {
		case 0:
			m.PreviousLeafHash = leafHash(nil)
		default:
			n := g.vals - 1 - g.rng.Intn(6)
			m.PreviousLeafHash = leafHash(val(n))
		}
	}
	return &lop{o: o, write: true, run: func(c context.Context, svc service) Ev {
		v, cd := guard(func() (*pb.MapSetValueResponse, error) {
			return svc.MapSetValue(c, &pb.MapSetValueRequest{Map: o.mp(), Mutation: proto.Clone(m).(*pb.MapMutation)})
		})
		return Ev{"ev": "set", "act": m.Action, "key": hx(m.Key), "hv": m.Value != nil, "li": hx(m.Value.GetLeafInput()),
			"ex": hx(m.Value.GetExtraData()), "fmt": int(m.Value.GetFormat()), "prev": hx(m.PreviousLeafHash), "code": cd, "lh": hx(v.GetLeafHash())}
	}}
}

func (g *linGen) read(o Obj) *lop {
	lt := "log"
	x := g.rng.Intn(5)
	if o.Kind == "map" {
		lt = []string{"mut", "head"}[g.rng.Intn(2)]
		x = g.rng.Intn(9)
	}
	size := g.size()
	var run func(context.Context, service) Ev
	switch x {
	case 0:
		run = func(c context.Context, svc service) Ev {
			v, cd := guard(func() (*pb.LogTreeHashResponse, error) {
				return svc.LogTreeHash(c, &pb.LogTreeHashRequest{Log: o.log(lt), TreeSize: size})
			})
			return Ev{"ev": "head", "lt": lt, "size": size, "code": cd, "rs": clamp(v.GetTreeSize()), "root": hx(v.GetRootHash())}
		}
	case 1, 2:
		by, idx, h := "index", int64(g.rng.Intn(g.max+1)), []byte(nil)
		if x == 2 && lt == "log" {
			by, h = "hash", g.lh(o)
		}
		q := &pb.LogInclusionProofRequest{Log: o.log(lt), LeafIndex: idx, TreeSize: size}
		if by == "hash" {
			q = &pb.LogInclusionProofRequest{Log: o.log(lt), MtlHash: h, TreeSize: size}
		}
		run = func(c context.Context, svc service) Ev {
			v, cd := guard(func() (*pb.LogInclusionProofResponse, error) { return svc.LogInclusionProof(c, q) })
			return Ev{"ev": "incl", "lt": lt, "by": by, "idx": idx, "h": hx(h), "size": size, "code": cd,
				"ri": clamp(v.GetLeafIndex()), "rs": clamp(v.GetTreeSize()), "path": hxs(v.GetAuditPath())}
		}
	case 3:
		from := int64(1 + g.rng.Intn(g.max+1))
		run = func(c context.Context, svc service) Ev {
			v, cd := guard(func() (*pb.LogConsistencyProofResponse, error) {
				return svc.LogConsistencyProof(c, &pb.LogConsistencyProofRequest{Log: o.log(lt), FromSize: from, TreeSize: size})
			})
			return Ev{"ev": "cons", "lt": lt, "from": from, "size": size, "code": cd,
				"rf": clamp(v.GetFromSize()), "rs": clamp(v.GetTreeSize()), "path": hxs(v.GetAuditPath())}
		}
	case 4:
		first := int64(0)
		if g.rng.Intn(2) == 0 {
			first = int64(g.rng.Intn(g.max + 1))
		}
		run = func(c context.Context, svc service) Ev {
			v, cd := guard(func() (*pb.LogFetchEntriesResponse, error) {
				return svc.LogFetchEntries(c, &pb.LogFetchEntriesRequest{Log: o.log(lt), First: first, Last: size})
			})
			return Ev{"ev": "fetch", "lt": lt, "first": first, "last": size, "code": cd, "v": entries(lt, v.GetValues())}
		}
	case 5, 6:
		run = func(c context.Context, svc service) Ev {
			v, cd := guard(func() (*pb.MapTreeHashResponse, error) {
				return svc.MapTreeHash(c, &pb.MapTreeHashRequest{Map: o.mp(), TreeSize: size})
			})
			return Ev{"ev": "mhead", "size": size, "code": cd, "root": hx(v.GetRootHash()),
				"ms": clamp(v.GetMutationLog().GetTreeSize()), "mroot": hx(v.GetMutationLog().GetRootHash())}
		}
	default:
		key := g.keys[g.rng.Intn(len(g.keys))]
		run = func(c context.Context, svc service) Ev {
			v, cd := guard(func() (*pb.MapGetValueResponse, error) {
				return svc.MapGetValue(c, &pb.MapGetValueRequest{Map: o.mp(), Key: key, TreeSize: size})
			})
			return Ev{"ev": "get", "key": hx(key), "size": size, "code": cd, "rs": clamp(v.GetTreeSize()),
				"li": hx(v.GetValue().GetLeafInput()), "ex": hx(v.GetValue().GetExtraData()), "fmt": int(v.GetValue().GetFormat()),
				"plen": len(v.GetAuditPath()), "path": path(v.GetAuditPath())}
		}
	}
	return &lop{o: o, run: run}
}

// Schedules of the specification ------------------------------------------------

type linSched struct {
	K []string `json:"k"`
	S []int    `json:"s"`
	N int      `json:"n"`
}

// replay runs one schedule.
func (s *S) replay(t *Tr, w *World, sc linSched, o Obj, fine bool) {
	g := &linGen{rng: s.rng, keys: [][]byte{[]byte("k1"), []byte("k2")}, max: 3, adds: map[string]int{}}
	h := newHist()
	direct := func(op *lop) {
		id := h.call(op)
		h.ret(id, op, op.run(ctx, w.svc))
	}
	for i := s.rng.Intn(4); i > 0; i-- {
		direct(g.write(o))
	}
	type caller struct {
		g    *gproc
		op   *lop
		id   int
		pc   int  // as in GenLin
		held bool // stopped at a gate
		done bool
		res  chan Ev
	}
	cs := make([]*caller, len(sc.K))
	for i, k := range sc.K {
		op := g.read(o)
		if k == "w" {
			op = g.write(o)
		}
		cs[i] = &caller{op: op, g: &gproc{fine: fine, at: make(chan string), grant: make(chan struct{})}, res: make(chan Ev, 1)}
	}
	// see waits a moment for a caller to stop or return; one that waits for another may take longer
	see := func(c *caller, d time.Duration) {
		if c.held || c.done {
			return
		}
		select {
		case <-c.g.at:
			c.held = true
		case a := <-c.res:
			c.done = true
			h.ret(c.id, c.op, a)
		case <-time.After(d):
		}
	}
	goOn := func(c *caller) {
		if c.held {
			c.held = false
			c.g.grant <- struct{}{}
		}
	}
	for _, p := range sc.S {
		c := cs[p-1]
		switch {
		case c.pc == 0:
			c.id = h.call(c.op)
			go func() { c.res <- c.op.run(context.WithValue(ctx, procKey{}, c.g), w.svc) }()
			see(c, 2*time.Millisecond)
		case c.pc <= sc.N:
			for i := 0; i == 0 || (fine && i < 1+s.rng.Intn(5)); i++ {
				goOn(c)
				see(c, 2*time.Millisecond)
			}
		default:
			atomic.StoreInt32(&c.g.open, 1)
			goOn(c)
			see(c, 2*time.Millisecond)
		}
		c.pc++
	}
	for _, c := range cs {
		atomic.StoreInt32(&c.g.open, 1)
	}
	for dl := time.Now().Add(callTimeout + 5*time.Second); ; {
		left := 0
		for _, c := range cs {
			if !c.done {
				left++
				goOn(c)
				see(c, time.Millisecond)
			}
		}
		if left == 0 {
			break
		}
		if time.Now().After(dl) {
			must(fmt.Errorf("callers do not return"))
		}
	}
	for i := s.rng.Intn(3); i > 0; i-- {
		direct(g.read(o))
	}
	h.finish(t, w.svc, false)
}

// free lets callers run as they like.
func (s *S) free(w *World, callers, ops int, rest, deferred bool) {
	t := newTrace()
	h := newHist()
	logs := []Obj{logO, {Acc: "77", Name: "second", Kind: "log", Key: "key"}}
	maps := []Obj{{Acc: "77", Name: "second", Kind: "map", Key: "key"}}
	if rest {
		logs[0].Acc = "77"
	}
	keys := s.keySet(6)
	if rest {
		for i, k := range keys {
			if len(k) == 0 {
				keys[i] = []byte("k")
			}
		}
	}
	objs := append(append([]Obj{}, logs...), maps...)
	// other services over the same storage: one that does not write at all, and (unless a mutator of its own
	// is at work) one that writes as well
	svcs := []service{w.cl, w.cl, w.beside(false), w.cl}
	if !deferred {
		svcs[3] = w.beside(true)
	}
	var gmu sync.Mutex
	g := &linGen{rng: s.rng, keys: keys, rest: rest, max: callers * ops / len(objs) / 2, adds: map[string]int{}}
	n := map[string]int{}
	var wg sync.WaitGroup
	for i := 0; i < callers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < ops; j++ {
				gmu.Lock()
				o := objs[g.rng.Intn(len(objs))]
				g.max = n[o.id()]
				var op *lop
				if g.rng.Intn(5) < 2 {
					op = g.write(o)
					n[o.id()]++
				} else {
					op = g.read(o)
				}
				gmu.Unlock()
				id := h.call(op)
				svc := svcs[i%len(svcs)]
				if op.write && i%len(svcs) == 2 {
					svc = w.cl
				}
				h.ret(id, op, op.run(ctx, svc))
			}
		}(i)
	}
	wg.Wait()
	if deferred {
		settle(w.svc, objs)
	}
	h.finish(t, w.svc, deferred)
}

// settle waits until nothing changes any more.
func settle(svc service, objs []Obj) {
	last, since := "", time.Now()
	for time.Since(since) < 400*time.Millisecond {
		x := ""
		for _, o := range objs {
			lt := "log"
			if o.Kind == "map" {
				lt = "mut"
			}
			v, _ := guard(func() (*pb.LogTreeHashResponse, error) {
				return svc.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: o.log(lt)})
			})
			x += fmt.Sprintf("%d ", v.GetTreeSize())
		}
		if x != last {
			last, since = x, time.Now()
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func scenLin(s *S) {
	var scs []linSched
	for _, p := range s.plan {
		var x linSched
		must(json.Unmarshal(p, &x))
		scs = append(scs, x)
	}
	const workers = 6
	var wg sync.WaitGroup
	// schedules of the specification
	for k := 0; k < workers; k++ {
		s := s.fork()
		t := newTrace()
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			n := 0
			for i := k; i < len(scs); i += workers {
				if n++; n%60 == 0 {
					t = newTrace()
				}
				backend := "memory"
				if n%9 == 8 {
					backend = "badger"
				}
				if n%23 == 22 {
					backend = "bolt"
				}
				w := newWorld(WC{Backend: backend, Wrap: func(x verifiable.StorageWriter) verifiable.StorageWriter { return &Gate{W: x} }})
				o := []Obj{logO, mapO, mapO}[s.rng.Intn(3)]
				s.replay(t, w, scs[i], o, scs[i].N > 2)
				w.close()
			}
		}(k)
	}
	wg.Wait()
	// freely
	jit := func(x verifiable.StorageWriter) verifiable.StorageWriter { return &Jitter{W: x} }
	for i := 0; i < s.q(2, 12); i++ {
		for _, c := range []struct {
			wc       WC
			callers  int
			rest     bool
			deferred bool
		}{
			{wc: WC{}, callers: 12},
			{wc: WC{Wrap: jit}, callers: 12},
			{wc: WC{Wrap: jit, Backend: "bolt"}, callers: 8},
			{wc: WC{Wrap: jit, Backend: "badger"}, callers: 8},
			{wc: WC{Wrap: jit, Backend: "postgres"}, callers: 6},
			{wc: WC{Wrap: jit, Transport: "rest"}, callers: 8, rest: true},
			{wc: WC{Wrap: jit, Transport: "grpc"}, callers: 8},
			{wc: WC{Wrap: jit, Mutator: "batch", BatchSize: 5, BufferSize: 10, Timeout: 2 * time.Millisecond}, callers: 10, deferred: true},
			{wc: WC{Wrap: jit, Mutator: "batch", BatchSize: 3, BufferSize: 0, Timeout: time.Millisecond, Backend: "badger"}, callers: 8, deferred: true},
		} {
			w := newWorld(c.wc)
			s.free(w, c.callers, s.q(24, 40), c.rest, c.deferred)
			w.close()
		}
	}
}
