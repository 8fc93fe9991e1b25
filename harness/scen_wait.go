//go:build goexperiment.synctest

package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"testing/synctest"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	scenarios["C27"] = scenWait
}

// watcher stands between the one who waits and the service, and records what is answered.
type watcher struct {
	service
	evs    []Ev
	kind   string
	want   int64
	leaf   []byte
	polls  int         // before it is given up
	honest func() bool // whether the head answered last will be proved as it should
}

type giveUp struct{}

func (w *watcher) say(e Ev) { w.evs = append(w.evs, e) }

func (w *watcher) poll() {
	if w.polls--; w.polls < 0 {
		panic(giveUp{})
	}
}

func (w *watcher) LogTreeHash(c context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	w.poll()
	r, err := w.service.LogTreeHash(c, q)
	w.say(Ev{"ev": "head", "ok": err == nil, "honest": w.honest == nil || w.honest(), "n": clamp(r.GetTreeSize()), "root": hx(r.GetRootHash())})
	return r, err
}

func (w *watcher) LogInclusionProof(c context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	r, err := w.service.LogInclusionProof(c, q)
	w.say(Ev{"ev": "proof", "ok": err == nil, "i": clamp(r.GetLeafIndex()), "path": hxs(r.GetAuditPath())})
	return r, err
}

func (w *watcher) MapTreeHash(c context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	if w.kind == "size" {
		w.poll()
	}
	r, err := w.service.MapTreeHash(c, q)
	m := r.GetMutationLog()
	w.say(Ev{"ev": "mhead", "ok": err == nil, "honest": true, "n": clamp(m.GetTreeSize()), "mroot": hx(m.GetRootHash()), "root": hx(r.GetRootHash())})
	return r, err
}

func wlog(svc service, lt string) *verifiable.Log {
	a := (&verifiable.Client{Service: svc}).Account("77", "key")
	if lt == "mut" {
		return a.VerifiableMap("obj").MutationLog()
	}
	return a.VerifiableLog("obj")
}

func wmap(svc service) *verifiable.Map {
	return (&verifiable.Client{Service: svc}).Account("77", "key").VerifiableMap("obj")
}

// patient calls f and tells how it ended; one that was given up hangs.
func patient(f func() error) (c string) {
	defer func() {
		switch p := recover(); p.(type) {
		case nil:
		case giveUp:
			c = "HANG"
		default:
			fmt.Fprintln(os.Stderr, "panic:", p)
			c = "PANIC"
		}
	}()
	if f() != nil {
		return "FAIL"
	}
	return "OK"
}

// wait runs one wait and gives its events.
func (w *watcher) wait(f func() (n int64, root, mroot []byte, err error)) []Ev {
	var n int64
	var root, mroot []byte
	c := patient(func() (err error) {
		n, root, mroot, err = f()
		return
	})
	rv := []Ev{{"ev": "wait", "kind": w.kind, "leaf": hx(w.leaf), "want": clamp(w.want)}}
	rv = append(rv, w.evs...)
	return append(rv, Ev{"ev": "waited", "code": c, "n": clamp(n), "root": hx(root), "mroot": hx(mroot)})
}

func lthOut(h *pb.LogTreeHashResponse, err error) (int64, []byte, []byte, error) {
	if err == nil && h == nil {
		panic("no head and no error")
	}
	return h.GetTreeSize(), h.GetRootHash(), nil, err
}
func mthOut(h *pb.MapTreeHashResponse, err error) (int64, []byte, []byte, error) {
	if err == nil && h == nil {
		panic("no head and no error")
	}
	return h.GetMutationLog().GetTreeSize(), h.GetRootHash(), h.GetMutationLog().GetRootHash(), err
}

// one poll: the head answered, and the size of the log by which the proof is looked up then
type step struct {
	head, size int
	lie        int // 0: none; otherwise what is wrong with the proof or the head
}

// script is a server that answers poll after poll as it is told, the last one for ever.
type script struct {
	liar
	hist  [][]byte
	leaf  []byte
	steps []step
	at    int
}

func (x *script) cur() step { return x.steps[max(0, min(x.at, len(x.steps))-1)] }

func (x *script) LogAddEntry(context.Context, *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return &pb.LogAddEntryResponse{LeafHash: x.leaf}, nil
}
func (x *script) MapSetValue(context.Context, *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	return &pb.MapSetValueResponse{LeafHash: x.leaf}, nil
}

func (x *script) LogTreeHash(_ context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	if q.TreeSize != 0 {
		return trueHead(x.hist, q.TreeSize)
	}
	x.at++
	c := x.cur()
	if c.head == 0 {
		return &pb.LogTreeHashResponse{}, nil
	}
	r := &pb.LogTreeHashResponse{TreeSize: int64(c.head), RootHash: mth(x.hist[:c.head])}
	if c.lie == 5 {
		r.RootHash = append([]byte{}, r.RootHash...)
		r.RootHash[3] ^= 1
	}
	return r, nil
}

func (x *script) LogInclusionProof(_ context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	c := x.cur()
	r, err := trueIncl(x.hist[:c.size], q)
	if c.lie == 0 || c.lie == 5 {
		return r, err
	}
	if r == nil { // the proof of another entry
		if r, err = trueIncl(x.hist, &pb.LogInclusionProofRequest{LeafIndex: 0, TreeSize: q.TreeSize}); err != nil {
			return nil, err
		}
	}
	switch c.lie {
	case 1:
		return nil, errKinds[x.at%len(errKinds)]
	case 2:
		r.LeafIndex++
	case 3:
		r.AuditPath = append(r.AuditPath, leafHash(nil))
	case 4:
		if len(r.AuditPath) == 0 {
			return nil, errKinds[x.at%len(errKinds)]
		}
		r.AuditPath[0] = append([]byte{}, r.AuditPath[0]...)
		r.AuditPath[0][7] ^= 16
	}
	return r, nil
}

func (x *script) MapTreeHash(_ context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	n := q.TreeSize
	if n == 0 {
		x.at++
		n = int64(x.cur().head)
	}
	if n < 0 || n > int64(len(x.hist)) {
		return nil, errRange
	}
	r := &pb.MapTreeHashResponse{RootHash: leafHash([]byte(fmt.Sprint("map ", n))), MutationLog: &pb.LogTreeHashResponse{TreeSize: n}}
	if n > 0 {
		r.MutationLog.RootHash = mth(x.hist[:n])
	}
	return r, nil
}

// bubble runs f in virtual time.
func bubble(f func()) {
	over := false
	defer func() {
		if p := recover(); p != nil && !over { // (what f left behind may stay blocked)
			panic(p)
		}
	}()
	synctest.Run(func() {
		f()
		over = true
	})
}

// waiting is a way to wait for an update of some kind.
func (w *watcher) waiting(way int) func() (int64, []byte, []byte, error) {
	v, k := &pb.LeafData{LeafInput: []byte("value")}, []byte("key")
	switch w.kind {
	case "log":
		if way == 0 {
			return func() (int64, []byte, []byte, error) { return lthOut(wlog(w, "log").BlockUntilPresent(ctx, w.leaf)) }
		}
		return func() (int64, []byte, []byte, error) {
			p, err := wlog(w, "log").Add(ctx, v)
			must(err)
			return lthOut(p.Wait(ctx))
		}
	case "map":
		return func() (int64, []byte, []byte, error) {
			var p verifiable.MapUpdatePromise
			var err error
			switch way {
			case 0:
				p, err = wmap(w).Set(ctx, k, v)
			case 1:
				p, err = wmap(w).Delete(ctx, k)
			case 2:
				p, err = wmap(w).Update(ctx, k, v, leafHash(nil))
			}
			must(err)
			return mthOut(p.Wait(ctx))
		}
	}
	return func() (int64, []byte, []byte, error) { return mthOut(wmap(w).BlockUntilSize(ctx, w.want)) }
}

// scripted runs a wait on a script.
func (s *S) scripted(hist [][]byte, kind string, pos int, steps []step) (rv []Ev) {
	x := &script{hist: hist, steps: steps, leaf: leafHash([]byte("elsewhere"))}
	if pos >= 1 && pos <= len(hist) {
		x.leaf = hist[pos-1]
	}
	way := s.rng.Intn(3)
	if kind == "log" {
		way = s.rng.Intn(2)
	}
	bubble(func() {
		w := &watcher{service: x, kind: kind, want: int64(pos), leaf: x.leaf, polls: len(steps) + 12}
		w.honest = func() bool { return x.cur().lie == 0 }
		rv = w.wait(w.waiting(way))
	})
	return rv
}

func (t *Tr) all(evs []Ev) {
	for _, e := range evs {
		t.emit(e)
	}
}

func scenWait(s *S) {
	var far sync.WaitGroup
	var late []func()
	var mu sync.Mutex
	for i := 0; i < s.q(4, 12); i++ {
		far.Add(1)
		i := i
		seed := s.rng.Int63()
		go func() {
			defer far.Done()
			f := s.slow(i, seed)
			mu.Lock()
			late = append(late, f)
			mu.Unlock()
		}()
	}
	// schedules from the specification
	var hist [][]byte
	for i := 0; i < 8; i++ {
		hist = append(hist, leafHash([]byte(fmt.Sprint("entry ", i))))
	}
	for i := 0; i < len(s.plan); i += 200 {
		t := newTrace()
		t.emit(Ev{"ev": "hist", "v": hxs(hist)})
		for _, p := range s.plan[i:min(i+200, len(s.plan))] {
			var x struct {
				Pos   int
				Polls []struct{ H, N int }
			}
			must(json.Unmarshal(p, &x))
			steps := []step{}
			for _, y := range x.Polls {
				steps = append(steps, step{head: y.H, size: y.N})
			}
			for _, k := range []string{"log", "map", "size"} {
				t.all(s.scripted(hist, k, x.Pos, steps))
			}
		}
	}
	// longer ones, also with servers that do not prove what they should
	for i := 0; i < s.q(30, 300); i++ {
		n := []int{1, 2, 3, 5, 8, 9, 16, 17, 33}[s.rng.Intn(9)]
		hist := [][]byte{}
		for j := 0; j < n+3; j++ {
			hist = append(hist, leafHash([]byte(fmt.Sprint(i, " entry ", j))))
		}
		t := newTrace()
		t.emit(Ev{"ev": "hist", "v": hxs(hist)})
		for j := 0; j < 20; j++ {
			t.all(s.scripted(hist, []string{"log", "log", "map", "size"}[s.rng.Intn(4)], 1+s.rng.Intn(n+1), s.longScript(n, i%2 == 1)))
		}
	}
	// services that apply late, in virtual time
	for i := 0; i < s.q(12, 150); i++ {
		s.lateService(i)
	}
	time.AfterFunc(150*time.Second, func() {
		fmt.Fprintln(os.Stderr, "a wait does not return")
		os.Exit(4)
	})
	far.Wait()
	for _, f := range late {
		f()
	}
}

func (s *S) longScript(n int, lies bool) []step {
	size := s.rng.Intn(n)
	steps := []step{}
	for len(steps) < 60 && size <= n {
		h := size
		if s.rng.Intn(4) == 0 {
			h = s.rng.Intn(size + 1)
		}
		x := step{head: h, size: size}
		if lies && s.rng.Intn(2) == 0 {
			x.lie = 1 + s.rng.Intn(5)
			if h == 0 {
				x.lie = 0
			}
		}
		for r := []int{1, 1, 1, 2, 3, 25}[s.rng.Intn(6)]; r > 0; r-- {
			steps = append(steps, x)
		}
		size += []int{0, 1, 1, 1, 2, 7}[s.rng.Intn(6)]
	}
	// in the end all is there, and proved
	for _, h := range []int{n + 1 + s.rng.Intn(2), n + 2, n + 2} {
		steps = append(steps, step{head: h, size: n + 3})
	}
	return steps
}

// lateMut applies mutations some time after they were accepted, in any order.
type lateMut struct {
	verifiable.MutatorService
	delay func() time.Duration
}

func (m *lateMut) QueueMutation(c context.Context, ns []byte, mut *pb.Mutation) error {
	d := m.delay()
	go func() {
		time.Sleep(d)
		must(m.MutatorService.QueueMutation(c, ns, mut))
	}()
	return nil
}

// callers has n callers write and wait at the same time; gives the trace to be written for the log and for the map.
func callers(w *World, n, polls int, rng *rand.Rand, gap func() time.Duration) func() {
	out := make([][]Ev, n)
	kinds := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		kind := []string{"log", "log", "map", "size"}[rng.Intn(4)]
		d, num, way := gap(), rng.Intn(n), rng.Intn(3)
		kinds[i] = kind
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			u := &watcher{service: w.cl, kind: kind, polls: polls}
			// several may add the same entry
			v := &pb.LeafData{LeafInput: []byte(fmt.Sprint("value ", num))}
			switch kind {
			case "log":
				p, err := wlog(w.cl, "log").Add(ctx, v)
				must(err)
				u.leaf = p.LeafHash()
				out[i] = u.wait(func() (int64, []byte, []byte, error) { return lthOut(wlog(u, "log").BlockUntilPresent(ctx, u.leaf)) })
			case "map":
				k := []byte(fmt.Sprint("key ", num%3))
				var p verifiable.MapUpdatePromise
				var err error
				m := wmap(u)
				switch way {
				case 0:
					p, err = m.Set(ctx, k, v)
				case 1:
					p, err = m.Delete(ctx, k)
				case 2:
					p, err = m.Update(ctx, k, v, leafHash(nil))
				}
				must(err)
				u.leaf = p.LeafHash()
				out[i] = u.wait(func() (int64, []byte, []byte, error) { return mthOut(p.Wait(ctx)) })
			case "size":
				u.want = int64(way)
				out[i] = u.wait(u.waiting(0))
			}
		}()
	}
	// as many mutations as the sizes waited for need
	for i := 0; i < 2; i++ {
		_, err := wmap(w.cl).Set(ctx, []byte("key"), &pb.LeafData{LeafInput: []byte(fmt.Sprint(i))})
		must(err)
	}
	wg.Wait()
	list := func(lt string) []string {
		h, err := wlog(w.svc, lt).TreeHead(ctx, 0)
		must(err)
		if h.TreeSize == 0 {
			return []string{}
		}
		r, err := w.svc.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: wlog(w.svc, lt).Log, Last: h.TreeSize})
		must(err)
		return hxs(hashesOf(r.Values))
	}
	ll, ml := list("log"), list("mut")
	return func() {
		for k, l := range map[bool][]string{true: ll, false: ml} {
			t := newTrace()
			t.emit(Ev{"ev": "hist", "v": l})
			for i, e := range out {
				if (kinds[i] == "log") == k {
					t.all(e)
				}
			}
		}
	}
}

func (s *S) lateService(i int) {
	rng := rand.New(rand.NewSource(s.rng.Int63()))
	span := []time.Duration{time.Second, 5 * time.Second, time.Minute, 90 * time.Minute}[i%4]
	var mu sync.Mutex
	delay := func() time.Duration {
		mu.Lock()
		defer mu.Unlock()
		return time.Duration(rng.Int63n(int64(span)))
	}
	var f func()
	bubble(func() {
		w := newWorld(WC{WrapMut: func(m verifiable.MutatorService) verifiable.MutatorService { return &lateMut{m, delay} }})
		f = callers(w, 4+rng.Intn(16), 200, rand.New(rand.NewSource(s.rng.Int63())), delay)
	})
	f()
}

// slow is a service with the batching mutator in real time.
func (s *S) slow(i int, seed int64) func() {
	rng := rand.New(rand.NewSource(seed))
	w := newWorld(WC{Mutator: "batch", BatchSize: []int{1, 3, 100}[i%3], BufferSize: 3, Timeout: []time.Duration{time.Second, 300 * time.Millisecond}[i%2],
		Transport: []string{"direct", "rest", "grpc", "chain"}[i%4], Backend: []string{"memory", "bolt"}[i%2],
		WrapMut: func(m verifiable.MutatorService) verifiable.MutatorService {
			return &lateMut{m, func() time.Duration { return time.Duration(i%3) * 400 * time.Millisecond }}
		}})
	defer w.close()
	return callers(w, 6, 40, rng, func() time.Duration { return time.Duration(rng.Intn(800)) * time.Millisecond })
}
