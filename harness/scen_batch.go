package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	scenarios["C13"] = scenBatch
}

// Snoop tells when an update was stored, and lets the mutator through to the store step by step.
type Snoop struct {
	W        verifiable.StorageWriter
	mu       sync.Mutex
	onUpdate func()
	gate     chan struct{} // nil: open
	at       chan struct{} // the mutator is waiting
	direct   context.Context
}

type noGate struct{}

func (s *Snoop) pass(c context.Context) {
	if s.gate == nil || c.Value(noGate{}) != nil {
		return
	}
	select {
	case s.at <- struct{}{}:
	default:
	}
	<-s.gate
}

func (s *Snoop) ExecuteReadOnly(c context.Context, ns []byte, fn func(context.Context, verifiable.KeyReader) error) error {
	s.pass(c)
	return s.W.ExecuteReadOnly(c, ns, fn)
}

func (s *Snoop) ExecuteUpdate(c context.Context, ns []byte, fn func(context.Context, verifiable.KeyWriter) error) error {
	s.pass(c)
	s.mu.Lock()
	defer s.mu.Unlock()
	err := s.W.ExecuteUpdate(c, ns, fn)
	if err == nil && s.onUpdate != nil {
		s.onUpdate()
	}
	return err
}

// batchRun watches a service with a batching mutator.
type batchRun struct {
	*Tr
	mu    sync.Mutex
	s     *S
	w, tw *World
	snoop *Snoop
	objs  []Obj
	conc  bool
	seen  map[string]string
	id    int
	wg    sync.WaitGroup
	late  bool
}

func (s *S) newBatchRun(t *Tr, c WC, objs []Obj, conc, gated bool) *batchRun {
	b := &batchRun{Tr: t, s: s, objs: objs, conc: conc, seen: map[string]string{}}
	c.Mutator = "batch"
	c.Wrap = func(w verifiable.StorageWriter) verifiable.StorageWriter {
		b.snoop = &Snoop{W: w, onUpdate: b.commit}
		if gated {
			b.snoop.gate, b.snoop.at = make(chan struct{}), make(chan struct{}, 1)
		}
		return b.snoop
	}
	b.w = newWorld(c)
	b.tw = newWorld(WC{})
	b.emit(Ev{"ev": "begin"})
	return b
}

func (b *batchRun) close() {
	b.w.close()
	b.tw.close()
}

var through = context.WithValue(context.Background(), noGate{}, true)

// commit shows the objects that have changed.
func (b *batchRun) commit() {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, o := range b.objs {
		lt := "log"
		if o.Kind == "map" {
			lt = "mut"
		}
		hd, c := guard(func() (*pb.LogTreeHashResponse, error) {
			return b.w.svc.LogTreeHash(through, &pb.LogTreeHashRequest{Log: o.log(lt)})
		})
		now := c + asJSON(hd)
		if now == b.seen[o.id()] || (c == "OK" && hd.TreeSize == 0) {
			continue
		}
		b.seen[o.id()] = now
		e := Ev{"ev": "commit", "o": o.id(), "kind": o.Kind, "conc": b.conc, "size": clamp(hd.GetTreeSize()), "root": hx(hd.GetRootHash())}
		fetch := func(lt string) []Ev {
			v, _ := guard(func() (*pb.LogFetchEntriesResponse, error) {
				return b.w.svc.LogFetchEntries(through, &pb.LogFetchEntriesRequest{Log: o.log(lt)})
			})
			return entries(lt, v.GetValues())
		}
		e["v"] = fetch(lt)
		if o.Kind == "map" {
			e["h"] = fetch("head")
			v, _ := guard(func() (*pb.MapTreeHashResponse, error) {
				return b.w.svc.MapTreeHash(through, &pb.MapTreeHashRequest{Map: o.mp()})
			})
			e["mroot"], e["root"] = e["root"], hx(v.GetRootHash())
		}
		b.emit(e)
	}
}

// send queues a mutation.
func (b *batchRun) send(q *Q) {
	b.mu.Lock()
	b.id++
	id := b.id
	v := q.Val
	m := &pb.MapMutation{}
	if q.M != nil {
		m, v = q.M, q.M.Value
	}
	if b.conc {
		v = &pb.LeafData{LeafInput: []byte(fmt.Sprintf("v%d", id)), ExtraData: []byte(fmt.Sprint(id))}
		if q.M != nil {
			m.Value = v
			m.Action = []string{"set", "update"}[id%2]
		}
		q.Val = v
	}
	b.emit(Ev{"ev": "call", "o": q.O.id(), "kind": q.O.Kind, "id": id, "act": m.Action, "key": hx(m.Key), "hv": v != nil,
		"li": hx(v.GetLeafInput()), "ex": hx(v.GetExtraData()), "fmt": int(v.GetFormat()), "prev": hx(m.PreviousLeafHash)})
	b.mu.Unlock()
	a := q.run(b.w.svc)
	b.mu.Lock()
	b.emit(Ev{"ev": "ret", "o": q.O.id(), "kind": q.O.Kind, "id": id, "code": a.Code})
	b.mu.Unlock()
	if !b.conc {
		q.run(b.tw.svc)
	}
}

// missed counts the runs that did not get everything done; the first ones are given a lot of time.
var missed atomic.Int64

// drain waits until nothing happens any more, as long as something is missing.
func (b *batchRun) drain(want map[string]int64) {
	ok := false
	for i := 0; i < 3000 && !(i > 150 && missed.Load() > 3); i++ {
		ok = true
		for _, o := range b.objs {
			ok = ok && sizeThrough(b.w.svc, o) >= want[o.id()]
		}
		if ok {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	if !ok {
		missed.Add(1)
	}
	time.Sleep(4 * time.Millisecond) // whatever should not come
	b.snoop.mu.Lock()
	b.commit()
	b.snoop.mu.Unlock()
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, o := range b.objs {
		b.emit(Ev{"ev": "end", "o": o.id(), "kind": o.Kind, "conc": b.conc})
	}
}

func sizeThrough(svc service, o Obj) int64 {
	lt := "log"
	if o.Kind == "map" {
		lt = "mut"
	}
	v, _ := guard(func() (*pb.LogTreeHashResponse, error) {
		return svc.LogTreeHash(through, &pb.LogTreeHashRequest{Log: o.log(lt)})
	})
	return v.GetTreeSize()
}

// finish compares with the immediate mutator.
func (b *batchRun) finish() {
	want := map[string]int64{}
	for _, o := range b.objs {
		want[o.id()] = sizeThrough(b.tw.svc, o)
	}
	b.drain(want)
	if b.snoop.gate != nil {
		close(b.snoop.gate)
	}
	for _, o := range b.objs {
		n := sizeThrough(b.tw.svc, o)
		b.same("size", A{Code: "OK", Proj: fmt.Sprint(sizeThrough(b.w.svc, o))}, A{Code: "OK", Proj: fmt.Sprint(n)})
		qs := allQ(o, n)
		for i, q := range qs {
			if len(qs) > 40 && i%(len(qs)/40) != 0 {
				continue
			}
			b.same(q.String(), q.run(b.w.svc), q.run(b.tw.svc))
		}
	}
}

type batchPlan struct {
	Bs  int      `json:"bs"`
	Bu  int      `json:"bu"`
	Ops []string `json:"ops"`
}

var batchObjs = []Obj{{Acc: "acc", Name: "a", Kind: "map", Key: "k"}, {Acc: "acc", Name: "a", Kind: "log", Key: "k"}, {Acc: "acc", Name: "b", Kind: "log", Key: "k"}, {Acc: "acc", Name: "b", Kind: "map", Key: "k"}}

// replay follows a schedule of the specification.
func (b *batchRun) replay(p batchPlan, pick func(string) Obj) {
	chans := map[string]chan *Q{}
	var wg sync.WaitGroup
	sent := func(o Obj) {
		ch := chans[o.id()]
		if ch == nil {
			ch = make(chan *Q, len(p.Ops))
			chans[o.id()] = ch
			wg.Add(1)
			go func() {
				defer wg.Done()
				for q := range ch {
					b.send(q)
				}
			}()
		}
		n := b.id
		ch <- b.s.randQ(o, 5, 1)
		for i := 0; i < 50; i++ { // the call is on its way
			b.mu.Lock()
			m := b.id
			b.mu.Unlock()
			if m > n {
				break
			}
			time.Sleep(20 * time.Microsecond)
		}
	}
	waitGate := func() {
		select {
		case <-b.snoop.at:
		case <-time.After(15 * time.Millisecond):
		}
	}
	for _, op := range p.Ops {
		if op == "s" {
			select {
			case b.snoop.gate <- struct{}{}:
				waitGate()
			case <-time.After(15 * time.Millisecond):
			}
		} else {
			sent(pick(op))
		}
	}
	stop := make(chan bool)
	go func() { // all the rest
		for {
			select {
			case b.snoop.gate <- struct{}{}:
			case <-stop:
				return
			}
		}
	}()
	for _, ch := range chans {
		close(ch)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(callTimeout):
		b.mu.Lock()
		b.emit(Ev{"ev": "stuck"})
		b.mu.Unlock()
	}
	want := map[string]int64{}
	for _, o := range b.objs {
		want[o.id()] = sizeThrough(b.tw.svc, o)
	}
	b.drain(want)
	close(stop)
	b.snoop.gate = nil
}

func scenBatch(s *S) {
	// schedules of the specification
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	perTrace := 40
	for i := 0; i < len(s.plan); i += perTrace {
		part := s.plan[i:]
		if len(part) > perTrace {
			part = part[:perTrace]
		}
		t := newTrace()
		ss := s.fork()
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			for j, raw := range part {
				var p batchPlan
				must(json.Unmarshal(raw, &p))
				o1, o2 := batchObjs[(j)%4], batchObjs[(j+1+j/4%3)%4]
				pick := func(op string) Obj {
					if op == "a" {
						return o1
					}
					return o2
				}
				b := ss.newBatchRun(t, WC{BatchSize: p.Bs, BufferSize: p.Bu, Timeout: time.Millisecond}, []Obj{o1, o2}, false, true)
				b.replay(p, pick)
				b.close()
			}
		}()
	}
	wg.Wait()
	// free running
	ms := time.Millisecond
	type fr struct {
		c    WC
		conc bool
	}
	cfgs := []fr{}
	for _, bs := range []int{1, 2, 3, 7, 100, 0} {
		for _, bu := range []int{0, 1, 5, 200} {
			for _, to := range []time.Duration{0, ms / 10, 2 * ms} {
				cfgs = append(cfgs, fr{WC{BatchSize: bs, BufferSize: bu, Timeout: to}, s.rng.Intn(3) == 0})
			}
		}
	}
	s.rng.Shuffle(len(cfgs), func(i, j int) { cfgs[i], cfgs[j] = cfgs[j], cfgs[i] })
	n := s.q(24, 72)
	for rep := 0; rep < s.q(1, 5); rep++ {
		for i, c := range cfgs[:n] {
			if i%6 == 5 {
				c.c.Backend = "bolt"
			}
			if i%6 == 2 {
				c.c.Backend = "badger"
			}
			t, ss := newTrace(), s.fork()
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				ss.batchFree(t, c.c, c.conc)
			}()
		}
	}
	wg.Wait()
}

// batchFree has callers queue as they like.
func (s *S) batchFree(t *Tr, c WC, conc bool) {
	b := s.newBatchRun(t, c, batchObjs, conc, false)
	defer b.close()
	callers := len(b.objs)
	if conc {
		callers *= 3
	}
	var wg sync.WaitGroup
	n := 14
	if conc {
		n = 5
	}
	for g := 0; g < callers; g++ {
		ss := s.fork()
		o := b.objs[g%len(b.objs)]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				b.send(ss.randQ(o, 5, 1))
				if ss.rng.Intn(3) == 0 {
					time.Sleep(time.Duration(ss.rng.Intn(3)) * time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
	if conc {
		want := map[string]int64{}
		for _, o := range b.objs {
			want[o.id()] = int64(3 * n)
		}
		b.drain(want)
		return
	}
	b.finish()
}
