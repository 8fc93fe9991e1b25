package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/badger"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

func init() {
	scenarios["C16"] = scenStorage
}

var errOfFunction = errors.New("the function fails")

// store records transactions on a storage backend.
type store struct {
	*Tr
	mu    sync.Mutex
	w     verifiable.StorageWriter
	w2    verifiable.StorageWriter // another user of the same database
	n     int
	mem   bool
	stuck bool // it makes no sense to go on
}

func (st *store) giveUp() {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.stuck = true
}

func (st *store) isStuck() bool {
	st.mu.Lock()
	defer st.mu.Unlock()
	return st.stuck
}

func (st *store) rec(e Ev) {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.emit(e)
}

type txn struct {
	st      *store
	id      int
	upd     bool
	entered chan bool
	cmd     chan func(verifiable.KeyReader, verifiable.KeyWriter) error
	ack     chan bool
	done    chan bool
	in      bool
	over    bool // without having run
	wrote   bool
}

var errLeave = errors.New("leave")

func (st *store) open(w verifiable.StorageWriter, ns []byte, upd bool) *txn {
	return st.openAt(nil, w, ns, upd)
}

func (st *store) openAt(gate *atomic.Bool, w verifiable.StorageWriter, ns []byte, upd bool) *txn {
	st.mu.Lock()
	st.n++
	x := &txn{st: st, id: st.n, upd: upd, entered: make(chan bool, 1), cmd: make(chan func(verifiable.KeyReader, verifiable.KeyWriter) error), ack: make(chan bool), done: make(chan bool)}
	st.emit(Ev{"ev": "open", "tx": x.id, "ns": hx(ns), "upd": upd})
	st.mu.Unlock()
	run := func(kr verifiable.KeyReader, kw verifiable.KeyWriter) (err error) {
		st.rec(Ev{"ev": "enter", "tx": x.id})
		x.entered <- true
		for f := range x.cmd {
			err = f(kr, kw)
			if err == nil {
				x.ack <- true
				continue
			}
			if err == errLeave {
				err = nil
			}
			break
		}
		st.rec(Ev{"ev": "leave", "tx": x.id, "ok": err == nil})
		return err
	}
	go func() {
		for gate != nil && !gate.Load() {
			runtime.Gosched()
		}
		var err error
		c := guardErrVal(func() error {
			if upd {
				err = w.ExecuteUpdate(ctx, ns, func(_ context.Context, kw verifiable.KeyWriter) error { return run(kw, kw) })
			} else {
				err = w.ExecuteReadOnly(ctx, ns, func(_ context.Context, kr verifiable.KeyReader) error { return run(kr, nil) })
			}
			return err
		})
		res := "ERR"
		switch {
		case c != "":
			res = c
		case err == nil:
			res = "OK"
		case errors.Is(err, errOfFunction):
			res = "SAME"
		}
		e := Ev{"ev": "end", "tx": x.id, "res": res}
		if res == "ERR" {
			e["err"] = err.Error()
		}
		st.rec(e)
		close(x.done)
	}()
	return x
}

// guardErrVal only looks for panics.
func guardErrVal(f func() error) (c string) {
	defer func() {
		if p := recover(); p != nil {
			fmt.Fprintln(os.Stderr, "panic:", p, string(debug.Stack()))
			c = "PANIC"
		}
	}()
	f()
	return ""
}

func (x *txn) try(d time.Duration) bool {
	if x.in {
		return true
	}
	select {
	case <-x.entered:
		x.in = true
	case <-x.done:
		x.over = true
	case <-time.After(d):
	}
	return x.in
}

func valOf(v proto.Message) string {
	b, err := proto.Marshal(v)
	must(err)
	return "v" + short(hx(b))
}

func (x *txn) send(f func(verifiable.KeyReader, verifiable.KeyWriter) error) {
	select {
	case x.cmd <- f:
	case <-x.done: // (a panic)
	}
}

func (x *txn) acked() {
	select {
	case <-x.ack:
	case <-x.done:
	}
}

func (x *txn) get(key []byte) {
	x.send(func(kr verifiable.KeyReader, _ verifiable.KeyWriter) error {
		v := &pb.LeafData{LeafInput: []byte("left over"), Format: 1}
		err := kr.Get(ctx, key, v)
		e := Ev{"ev": "get", "tx": x.id, "key": hx(key), "val": "absent", "code": "OK"}
		switch {
		case err == nil:
			e["val"] = valOf(v)
		case err == verifiable.ErrNoSuchKey:
			e["code"] = "NoSuchKey"
		default:
			e["code"] = "ERR " + err.Error()
		}
		x.st.rec(e)
		return nil
	})
	x.acked()
}

func (x *txn) set(key []byte, v *pb.LeafData) {
	x.wrote = true
	x.send(func(_ verifiable.KeyReader, kw verifiable.KeyWriter) error {
		e := Ev{"ev": "set", "tx": x.id, "key": hx(key), "val": "absent", "code": "OK"}
		var err error
		k := append([]byte{}, key...)
		if v == nil {
			err = kw.Set(ctx, k, nil)
		} else {
			e["val"] = valOf(v)
			err = kw.Set(ctx, k, v)
		}
		if err != nil {
			e["code"] = "ERR " + err.Error()
		}
		x.st.rec(e)
		return nil
	})
	x.acked()
}

func (x *txn) leave(ok bool) {
	if x.st.mem && x.wrote {
		ok = true // what a failed update leaves behind in memory is nobody's business
	}
	x.send(func(verifiable.KeyReader, verifiable.KeyWriter) error {
		if ok {
			return errLeave
		}
		return errOfFunction
	})
}

// wait waits for the answer of the store (which may have to wait for other transactions).
func (x *txn) wait(d time.Duration) bool {
	select {
	case <-x.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (x *txn) mustEnd() {
	if !x.wait(callTimeout) {
		x.st.rec(Ev{"ev": "stuck", "tx": x.id})
		x.st.giveUp()
	}
}

var storeKeys = [][][]byte{
	{[]byte("k"), []byte("kk")}, {[]byte("k"), []byte("k\x00")}, {{0}, {0, 0}}, {[]byte("a/b"), []byte("a")}, {{255}, {254}}, {[]byte("A"), []byte("a")},
	{[]byte("log_leaf/\x00\x01"), []byte("log_leaf/\x00\x01\x00")}, {[]byte("metadata/size"), []byte("metadata/size ")}, {[]byte("root"), []byte("roo")}, {[]byte("1"), []byte("01")},
	{long(300, 'x'), long(300, 'y')}, {long(5000, 'x'), long(5000, 'y')}, {long(64, 'x'), long(64, 'y')},
}

// long makes look-alikes that differ at their end.
func long(n int, end byte) []byte { return append(bytes.Repeat([]byte{0xa7}, n-1), end) }

var storeSpaces = [][]byte{[]byte("ns"), []byte("ns2"), []byte("n"), {0}, {0, 0}, []byte("NS"), []byte("ns\x00"), {255, 254, 1, 2}, []byte("6e73"), []byte("s:./x"),
	long(17, 1), long(17, 2), long(33, 1), long(33, 2), long(65, 1), long(65, 2), long(120, 1), long(120, 2)} // (a file system takes names of up to 255 bytes)

func (s *S) storeVal(n *int) *pb.LeafData {
	*n++
	switch s.rng.Intn(8) {
	case 0:
		return &pb.LeafData{}
	case 1:
		return &pb.LeafData{LeafInput: []byte{byte(*n)}, ExtraData: []byte{0, 255, 0}}
	case 2:
		b := make([]byte, 1+s.rng.Intn(5000))
		s.rng.Read(b)
		return &pb.LeafData{LeafInput: b}
	}
	return &pb.LeafData{LeafInput: []byte(fmt.Sprint(*n))}
}

type storeOp struct {
	S  int    `json:"s"`
	Op string `json:"op"`
	K  int    `json:"k"`
}

// replay follows a schedule; what cannot happen now is left out.
func (s *S) storeReplay(st *store, ops []storeOp, ns1, ns2 []byte, keys [][]byte, n *int) {
	at := map[int]*txn{}
	var leaving []*txn
	defer func() {
		for _, x := range leaving {
			x.mustEnd()
		}
	}()
	ms := time.Millisecond
	nss := map[int][]byte{1: ns1, 2: ns2, 3: ns1}
	for _, op := range ops {
		x := at[op.S]
		switch op.Op {
		case "r", "u":
			if x != nil {
				continue // (still waiting to run)
			}
			w := st.w
			if op.S == 2 && st.w2 != nil {
				w = st.w2
			}
			x = st.open(w, nss[op.S], op.Op == "u")
			at[op.S] = x
			x.try(4 * ms)
			continue
		}
		if x == nil || !x.try(0) || !x.upd && (op.Op == "s" || op.Op == "d") {
			continue // (waiting, or what was opened before is still there)
		}
		switch op.Op {
		case "g":
			x.get(keys[op.K-1])
		case "s":
			x.set(keys[op.K-1], s.storeVal(n))
		case "d":
			x.set(keys[op.K-1], nil)
		case "e", "f":
			x.leave(op.Op == "e")
			if !x.wait(20 * ms) {
				leaving = append(leaving, x)
			}
			delete(at, op.S)
			for _, y := range at {
				y.try(2 * ms)
			}
		}
	}
	// the others, those first that are running
	for len(at) > 0 {
		prog := false
		for _, wait := range []time.Duration{0, 50 * ms, 10 * time.Second} {
			for i, x := range at {
				if x.try(wait) {
					x.get(keys[0])
					x.leave(true)
					if !x.wait(20 * ms) {
						leaving = append(leaving, x)
					}
				}
				if x.in || x.over {
					delete(at, i)
					prog = true
				}
			}
			if prog {
				break
			}
		}
		if !prog {
			st.rec(Ev{"ev": "stuck"})
			st.giveUp()
			return
		}
	}
}

// look reads everything.
func (st *store) look(spaces [][]byte, keys [][]byte) {
	for _, ns := range spaces {
		x := st.open(st.w, ns, false)
		if !x.try(callTimeout) {
			st.rec(Ev{"ev": "stuck"})
			st.giveUp()
			return
		}
		for _, k := range keys {
			x.get(k)
		}
		x.leave(true)
		x.mustEnd()
	}
}

// free has many callers at the same time.
func (s *S) storeFree(st *store, spaces, keys [][]byte, callers, each int) {
	var wg sync.WaitGroup
	for g := 0; g < callers; g++ {
		ss := s.fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			n := g * 1000000
			for i := 0; i < each && !st.isStuck(); i++ {
				w := st.w
				if g%2 == 1 && st.w2 != nil {
					w = st.w2
				}
				x := st.open(w, spaces[ss.rng.Intn(len(spaces))], ss.rng.Intn(2) == 0)
				if !x.try(callTimeout) {
					st.rec(Ev{"ev": "stuck"})
					st.giveUp()
					return
				}
				for j := 0; j < 1+ss.rng.Intn(5); j++ {
					k := keys[ss.rng.Intn(len(keys))]
					switch y := ss.rng.Intn(4); {
					case !x.upd || y < 2:
						x.get(k)
					case y == 2 && ss.rng.Intn(2) == 0:
						x.set(k, nil)
					default:
						x.set(k, ss.storeVal(&n))
					}
					if ss.rng.Intn(4) == 0 {
						time.Sleep(time.Duration(ss.rng.Intn(300)) * time.Microsecond)
					}
				}
				x.leave(ss.rng.Intn(4) > 0)
				x.mustEnd()
			}
		}()
	}
	wg.Wait()
}

// storeFirst has many callers use new namespaces at the same time.
func (s *S) storeFirst(st *store, n *int) {
	var spaces [][]byte
	for i := 0; i < 4; i++ {
		spaces = append(spaces, []byte(fmt.Sprint("new", i)))
	}
	keys := [][]byte{[]byte("a"), []byte("b")}
	for i, ns := range spaces {
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 10; g++ {
			ss := s.fork()
			*n += 100
			m := *n
			// most at one namespace, the others make them wait together
			at := ns
			if g < 3 && i%2 == 0 {
				at = spaces[i+1]
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				x := st.open(st.w, at, g%3 > 0)
				if !x.try(callTimeout) {
					st.rec(Ev{"ev": "stuck"})
					st.giveUp()
					return
				}
				k := keys[ss.rng.Intn(2)]
				x.get(k)
				if x.upd {
					x.set(k, ss.storeVal(&m))
				}
				x.leave(g != 5)
				x.mustEnd()
			}()
		}
		close(start)
		wg.Wait()
	}
	st.look(spaces, keys)
}

// storeBurst lets several first uses of a namespace go at the very same time, again and again.
func (s *S) storeBurst(st *store, rounds int, n *int) {
	keys := [][]byte{[]byte("a"), []byte("b"), []byte("c")}
	var spaces [][]byte
	for i := 0; i < rounds; i++ {
		ns := []byte(fmt.Sprint("burst", i))
		spaces = append(spaces, ns)
		var gate atomic.Bool
		var wg sync.WaitGroup
		for g := 0; g < 5; g++ {
			*n += 100
			m := *n
			ss := s.fork()
			x := st.openAt(&gate, st.w, ns, g < 4)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if !x.try(callTimeout) {
					st.rec(Ev{"ev": "stuck"})
					st.giveUp()
					return
				}
				x.get(keys[g%3])
				if x.upd {
					x.set(keys[g%3], ss.storeVal(&m))
				}
				x.leave(true)
				x.mustEnd()
			}()
		}
		gate.Store(true)
		wg.Wait()
		if st.isStuck() {
			return
		}
		st.look(spaces[i:], keys)
	}
}

func allKeys() [][]byte {
	rv := [][]byte{}
	for _, ks := range storeKeys {
		rv = append(rv, ks...)
	}
	return rv
}

func scenStorage(s *S) {
	var wg sync.WaitGroup
	for _, backend := range []string{"memory", "bolt", "badger", "postgres"} {
		ss := s.fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			ss.storeBackend(backend)
		}()
	}
	wg.Wait()
}

func (s *S) storeBackend(backend string) {
	var traces []*Tr
	if backend == "postgres" {
		defer func() { // statements the stand-in does not understand say nothing about the storage
			pgMu.Lock()
			defer pgMu.Unlock()
			for _, db := range pgServers {
				if db.alien.Load() > 0 {
					for _, t := range traces {
						must(t.f.Truncate(0))
						_, err := t.f.Seek(0, 0)
						must(err)
						t.emit(Ev{"ev": "store", "backend": "not understood"})
					}
					return
				}
			}
		}()
	}
	mk := func(dir string) (w, w2 verifiable.StorageWriter, closer func()) {
		switch backend {
		case "bolt":
			x := &bolt.Storage{Path: dir}
			return x, nil, x.Close
		case "badger":
			x := &badger.Storage{Path: dir}
			return x, nil, x.Close
		case "postgres":
			return newPostgres(dir)
		}
		m, c := newStorage(backend, "")
		return m, nil, c
	}
	n := 0
	per := 400
	for i := 0; i < len(s.plan); i += per {
		part := s.plan[i:]
		if len(part) > per {
			part = part[:per]
		}
		dir := freshDir()
		st := &store{Tr: newTrace(), mem: backend == "memory"}
		traces = append(traces, st.Tr)
		var closer func()
		st.w, st.w2, closer = mk(dir)
		st.rec(Ev{"ev": "store", "backend": backend})
		keys := storeKeys[(i/per)%len(storeKeys)]
		a := s.rng.Intn(len(storeSpaces))
		b := (a + 1 + s.rng.Intn(len(storeSpaces)-1)) % len(storeSpaces)
		for j, raw := range part {
			var ops []storeOp
			must(json.Unmarshal(raw, &ops))
			ns1, ns2 := storeSpaces[a], storeSpaces[a]
			if j%5 == 4 {
				ns2 = storeSpaces[b]
			}
			if j%7 == 6 {
				ns1 = storeSpaces[b]
			}
			s.storeReplay(st, ops, ns1, ns2, keys, &n)
			if st.isStuck() {
				return
			}
		}
		spaces := [][]byte{storeSpaces[a], storeSpaces[b]}
		st.look(spaces, keys)
		if st.isStuck() {
			return
		}
		if backend != "memory" {
			closer()
			st.w, st.w2, closer = mk(dir)
			st.rec(Ev{"ev": "reopen", "code": "OK"})
			st.look(spaces, keys)
		}
		s.storeFree(st, spaces, keys, 5, s.q(8, 20))
		st.look(spaces, keys)
		if st.isStuck() {
			return
		}
		closer()
	}
	// many are the first to use a namespace
	for round := 0; round < s.q(3, 8); round++ {
		st := &store{Tr: newTrace(), mem: backend == "memory"}
		traces = append(traces, st.Tr)
		var closer func()
		st.w, st.w2, closer = mk(freshDir())
		st.rec(Ev{"ev": "store", "backend": backend})
		s.storeFirst(st, &n)
		if st.isStuck() {
			return
		}
		closer()
	}
	for round := 0; round < s.q(4, 12); round++ {
		st := &store{Tr: newTrace(), mem: backend == "memory"}
		traces = append(traces, st.Tr)
		var closer func()
		st.w, st.w2, closer = mk(freshDir())
		st.rec(Ev{"ev": "store", "backend": backend})
		m := 60
		if backend != "memory" {
			m = 5
		}
		s.storeBurst(st, m, &n)
		if st.isStuck() {
			return
		}
		closer()
	}
	// all namespaces and keys in one store
	st := &store{Tr: newTrace(), mem: backend == "memory"}
	traces = append(traces, st.Tr)
	var closer func()
	dir := freshDir()
	st.w, st.w2, closer = mk(dir)
	st.rec(Ev{"ev": "store", "backend": backend})
	for round := 0; round < 2; round++ {
		for _, ns := range storeSpaces {
			x := st.open(st.w, ns, true)
			if !x.try(callTimeout) {
				st.rec(Ev{"ev": "stuck"})
				return
			}
			for _, k := range allKeys() {
				switch s.rng.Intn(5 - round) {
				case 0:
					x.set(k, nil)
				case 1:
				default:
					x.set(k, s.storeVal(&n))
				}
				if s.rng.Intn(3) == 0 {
					x.get(k)
				}
			}
			x.leave(s.rng.Intn(3) > 0)
			x.mustEnd()
		}
		st.look(storeSpaces, allKeys())
		if st.isStuck() {
			return
		}
	}
	s.storeFree(st, storeSpaces, allKeys(), 8, s.q(20, 100))
	st.look(storeSpaces, allKeys())
	if backend != "memory" {
		closer()
		st.w, st.w2, closer = mk(dir)
		st.rec(Ev{"ev": "reopen", "code": "OK"})
		st.look(storeSpaces, allKeys())
	}
	closer()
}
