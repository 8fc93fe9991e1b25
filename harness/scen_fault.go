package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/batch"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	scenarios["C15"] = scenFault
	scenarios["C15child"] = childOfFault
	scenarios["C15batch"] = childOfBatch
}

// everySize asks everything about all sizes (or some of them).
func (s *S) everySize(r *Rec, keys [][]byte, share int) {
	some := func() bool { return share <= 1 || s.rng.Intn(share) == 0 }
	for _, x := range []struct {
		o  Obj
		lt string
	}{{logO, "log"}, {mapO, "mut"}, {mapO, "head"}} {
		n := r.ents(x.o, x.lt)
		if share < n*n/400 {
			share = n * n / 400
		}
		for i := 0; i <= n; i++ {
			if some() || i == 0 {
				r.head(x.o, x.lt, int64(i))
			}
			for j := 0; j < i; j++ {
				if some() {
					r.inclIdx(x.o, x.lt, int64(j), int64(i))
				}
				if some() {
					r.cons(x.o, x.lt, int64(j), int64(i))
				}
			}
			if i > 0 && some() {
				r.inclHash(x.o, x.lt, leafHash(r.dump[x.o.id()+x.lt][i-1]), 0)
			}
		}
		if x.lt == "mut" {
			for i := 0; i <= n; i++ {
				if some() || i == 0 {
					r.mhead(x.o, int64(i))
				}
				for _, k := range keys {
					if some() || i == 0 {
						r.get(x.o, k, int64(i))
					}
				}
			}
		}
	}
}

// latest looks at the newest state only.
func (s *S) latest(r *Rec, keys [][]byte) {
	r.ents(logO, "log")
	r.ents(mapO, "mut")
	r.ents(mapO, "head")
	r.head(logO, "log", 0)
	r.mhead(mapO, 0)
	r.get(mapO, keys[s.rng.Intn(len(keys))], 0)
}

// faultWorld is a service on a store that can be made to fail and can be reopened.
type faultWorld struct {
	backend, dir string
	w            *World
	f            *Faulty
	st           verifiable.StorageWriter
	stop         func()
}

func openFault(backend, dir string) *faultWorld {
	fw := &faultWorld{backend: backend, dir: dir}
	fw.open()
	return fw
}

func (fw *faultWorld) open() {
	if fw.backend == "postgres" {
		fw.st, _, fw.stop = newPostgres(fw.dir)
	} else {
		fw.st, fw.stop = newStorage(fw.backend, fw.dir)
	}
	fw.w = newWorld(WC{Wrap: func(verifiable.StorageWriter) verifiable.StorageWriter {
		fw.f = newFaulty(fw.st)
		return fw.f
	}})
}

func (fw *faultWorld) reopen(r *Rec) {
	fw.close()
	fw.open()
	r.svc = fw.w.svc
	r.emit(Ev{"ev": "reopen", "code": "OK"})
}

// forkMu keeps stores from being closed while a process is started: until it runs its own program it
// has copies of the descriptors, and with them the locks, of all stores.
var forkMu sync.RWMutex

func (fw *faultWorld) close() {
	forkMu.RLock()
	defer forkMu.RUnlock()
	fw.w.close()
	fw.stop()
}

// oneWrite makes a write from a schedule.
func (s *S) oneWrite(keys [][]byte, c *int) func(*Rec) string {
	if s.rng.Intn(3) == 0 {
		li := leaf(*c)
		if *c > 0 && s.rng.Intn(4) == 0 {
			li = leaf(s.rng.Intn(*c))
		} else {
			*c++
		}
		ex, f := s.extra(), s.fmt()
		return func(r *Rec) string { return r.add(logO, li, ex, f) }
	}
	m := s.mut(s.randomSchedule(1, len(keys))[0], keys)
	if m.Act == "update" && s.rng.Intn(2) == 0 {
		m.Prev = leafHash(s.val(s.rng.Intn(4)))
	}
	return func(r *Rec) string { c, _ := r.set(mapO, m); return c }
}

// allFaults makes every storage access of a request fail in turn.
func (fw *faultWorld) allFaults(r *Rec, from int, req func(), after func()) int {
	for k := from; k < 2000; k++ {
		fw.f.arm(k)
		r.flag = true
		req()
		r.flag = false
		fired, kind := fw.f.fired, fw.f.kind
		fw.f.arm(-1)
		if !fired {
			return k
		}
		count("faults_"+kind, 1)
		if after != nil {
			after()
		}
	}
	panic("endless")
}

func (s *S) faultHistory(backend string, writes int) {
	dir := freshDir()
	fw := openFault(backend, dir)
	defer func() { fw.close() }()
	r := newRec(newTrace(), fw.w.svc)
	keys := s.keySet(4)
	for _, k := range keys {
		r.emit(Ev{"ev": "keys", "key": hx(k)})
	}
	c := 0
	s.latest(r, keys)
	for i := 0; i < writes; i++ {
		wr := s.oneWrite(keys, &c)
		if i%3 == 2 { // many writes would make the proofs tiny otherwise
			wr(r)
			continue
		}
		// the last attempt, in which nothing fails any more, is the retry that takes effect
		done := fw.allFaults(r, 0, func() { wr(r) }, func() {
			switch s.rng.Intn(4) {
			case 0:
				s.latest(r, keys)
			case 1:
				r.head(logO, "log", 0)
				r.mhead(mapO, 0)
				r.get(mapO, keys[s.rng.Intn(len(keys))], 0)
			case 2:
				if s.rng.Intn(6) == 0 {
					s.oneWrite(keys, &c)(r) // something else comes in between
				}
			case 3:
				if s.rng.Intn(12) == 0 {
					fw.reopen(r)
				}
			}
		})
		_ = done
		s.latest(r, keys)
		if s.rng.Intn(3) == 0 {
			s.everySize(r, keys, 8)
		}
	}
	// reads
	n := int64(r.ents(mapO, "mut"))
	m := int64(r.ents(logO, "log"))
	at := func(n int64) int64 {
		if n == 0 {
			return 0
		}
		return s.rng.Int63n(n)
	}
	for i := 0; i < s.q(3, 12); i++ {
		k := keys[s.rng.Intn(len(keys))]
		a, b, x := at(n+1), at(n+1), at(m+1)
		h := []byte{1}
		if m > 0 {
			h = leafHash(r.dump[logO.id()+"log"][at(m)])
		}
		for _, req := range []func(){
			func() { r.get(mapO, k, a) }, func() { r.get(mapO, k, 0) }, func() { r.mhead(mapO, b) }, func() { r.head(mapO, "head", a) },
			func() { r.inclIdx(mapO, "head", at(a), a) }, func() { r.cons(mapO, "mut", at(a), a) }, func() { r.ents(mapO, "mut") },
			func() { r.head(logO, "log", x) }, func() { r.inclHash(logO, "log", h, 0) }, func() { r.cons(logO, "log", at(x), x) },
			func() { r.fetch(logO, "log", at(x), x) }, func() { r.inclIdx(logO, "log", at(m), m) },
		} {
			fw.allFaults(r, 0, req, nil)
		}
	}
	s.everySize(r, keys, 2)
	if backend != "memory" {
		fw.reopen(r)
		s.everySize(r, keys, 1)
	}
}

// restarts lets a store grow with restarts in between; answers for fixed sizes have to stay.
func (s *S) restarts(backend string, rounds int) {
	dir := freshDir()
	fw := openFault(backend, dir)
	defer func() { fw.close() }()
	r := newRec(newTrace(), fw.w.svc)
	keys := s.keySet(3)
	for _, k := range keys {
		r.emit(Ev{"ev": "keys", "key": hx(k)})
	}
	c := 0
	for i := 0; i < rounds; i++ {
		for j := 0; j < 1+s.rng.Intn(4); j++ {
			s.oneWrite(keys, &c)(r)
		}
		if i%4 == 0 {
			s.everySize(r, keys, 6)
		}
		fw.reopen(r)
		s.everySize(r, keys, 6)
	}
}

// killed is what the child says; a start without ack is a request during which it was killed.
type killed struct {
	Start bool
	Ev    Ev
}

// childOfFault applies writes for ever and says so; its parent kills it.
func childOfFault(s *S) {
	f := strings.Split(os.Getenv("VDS_CHILD"), "|")
	n, err := strconv.Atoi(f[2])
	must(err)
	out := json.NewEncoder(os.Stdout)
	fw := openFault(f[0], f[1])
	keys := [][]byte{[]byte("k1"), []byte("k2"), []byte("k3")}
	for i := n; ; i++ {
		o, lt := logO, "log"
		var m Mut
		li := []byte("entry-" + strconv.Itoa(i))
		if s.rng.Intn(3) > 0 {
			o, lt = mapO, "mut"
			m = s.mut(s.randomSchedule(1, len(keys))[0], keys)
		}
		size := func() int64 {
			v, c := guard(func() (*pb.LogTreeHashResponse, error) {
				return fw.w.svc.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: o.log(lt)})
			})
			if c != "OK" {
				os.Exit(5)
			}
			return v.TreeSize
		}
		e := Ev{"o": o.id(), "kind": o.Kind}
		if o.Kind == "log" {
			e["ev"], e["li"], e["ex"], e["fmt"] = "add", hx(li), hx([]byte{byte(i)}), 0
		} else {
			e["ev"], e["act"], e["key"], e["hv"], e["prev"] = "set", m.Act, hx(m.Key), m.Val != nil, hx(m.Prev)
			e["li"], e["ex"], e["fmt"] = hx(m.Val.GetLeafInput()), hx(m.Val.GetExtraData()), int(m.Val.GetFormat())
		}
		e["size"] = size()
		must(out.Encode(killed{true, e}))
		if o.Kind == "log" {
			v, c := guard(func() (*pb.LogAddEntryResponse, error) {
				return fw.w.svc.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: o.log("log"), Value: &pb.LeafData{LeafInput: li, ExtraData: []byte{byte(i)}}})
			})
			e["code"], e["lh"] = c, hx(v.GetLeafHash())
		} else {
			v, c := guard(func() (*pb.MapSetValueResponse, error) {
				return fw.w.svc.MapSetValue(ctx, &pb.MapSetValueRequest{Map: o.mp(), Mutation: &pb.MapMutation{Action: m.Act, Key: m.Key, Value: m.Val, PreviousLeafHash: m.Prev}})
			})
			e["code"], e["lh"] = c, hx(v.GetLeafHash())
		}
		delete(e, "size")
		must(out.Encode(killed{false, e}))
	}
}

// interrupted finds out whether a request that nobody saw the end of took effect.
func (s *S) interrupted(r *Rec, e Ev, before int64) bool {
	o, lt := logO, "log"
	if e["kind"] == "map" {
		o, lt = mapO, "mut"
	}
	h, hc := r.headRaw(o, lt, 0)
	applied := hc == "OK" && h.TreeSize > before
	lh := ""
	if applied {
		if v, vc := r.fetchRaw(o, lt, before, before+1); vc == "OK" && len(v.Values) == 1 {
			lh = hx(leafHash(v.Values[0].LeafInput))
		}
	}
	if e["kind"] == "log" {
		b, err := hex.DecodeString(e["li"].(string))
		must(err)
		lh = hx(leafHash(b))
	}
	e["req"], e["ev"], e["applied"], e["lh"], e["code"] = e["ev"], "amb", applied, lh, "none"
	r.emit(e)
	return applied
}

// valueLogs are the sizes of the files that Badger appends to.
func valueLogs(dir string) map[string]int64 {
	rv := map[string]int64{}
	fs, err := filepath.Glob(filepath.Join(dir, "*", "*.vlog"))
	must(err)
	for _, f := range fs {
		st, err := os.Stat(f)
		must(err)
		rel, err := filepath.Rel(dir, f)
		must(err)
		rv[rel] = st.Size()
	}
	return rv
}

func copyDir(from, to string) {
	must(filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		must(err)
		rel, err := filepath.Rel(from, p)
		must(err)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if fi.Name() == "LOCK" {
			return nil
		}
		b, err := os.ReadFile(p)
		must(err)
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	}))
}

// torn stops a store that appends to files in the midst of its last write: what it leaves behind is a part of
// what was to be written, with nothing or zeroes after it.
func (s *S) torn(writes int) {
	dir := freshDir()
	fw := openFault("badger", dir)
	defer func() { fw.close() }()
	var hist []Ev
	r := newRec(newTrace(), fw.w.svc)
	r.hist = &hist
	keys := s.keySet(3)
	for _, k := range keys {
		r.emit(Ev{"ev": "keys", "key": hx(k)})
	}
	c := 0
	for i := 0; i < writes; i++ {
		if s.rng.Intn(3) == 0 {
			fw.reopen(r)
		}
		s.latest(r, keys) // opens both objects
		sizes := map[string]int64{"log": int64(len(r.dump[logO.id()+"log"])), "map": int64(len(r.dump[mapO.id()+"mut"]))}
		before := valueLogs(dir)
		past := append([]Ev{}, hist...)
		s.oneWrite(keys, &c)(r)
		now := hist[len(hist)-1]
		for f, n := range valueLogs(dir) {
			n0, ok := before[f]
			if !ok || n <= n0 || now["code"] != "OK" {
				continue
			}
			for j := 0; j < s.q(4, 10); j++ {
				cut := n0 + 1 + s.rng.Int63n(n-n0)
				if j == 0 {
					cut = n
				}
				d2 := freshDir()
				copyDir(dir, d2)
				must(os.Truncate(filepath.Join(d2, f), cut))
				if j%3 == 2 {
					must(os.Truncate(filepath.Join(d2, f), n))
				}
				r2 := newRec(newTrace(), nil)
				for _, e := range past {
					r2.emit(e)
				}
				var f2 *faultWorld
				code := guardErr(func() error { f2 = openFault("badger", d2); return nil })
				r2.emit(Ev{"ev": "reopen", "code": code})
				if code != "OK" {
					continue
				}
				r2.svc = f2.w.svc
				if cut == n {
					r2.emit(now)
				} else {
					e := Ev{}
					for k, v := range now {
						e[k] = v
					}
					s.interrupted(r2, e, sizes[now["kind"].(string)])
				}
				s.latest(r2, keys)
				s.oneWrite(keys, new(int))(r2) // it has to be able to go on
				s.everySize(r2, keys, 10)
				f2.close()
				count("torn_writes", 1)
			}
		}
	}
}

func (s *S) kills(backend string, rounds int) {
	dir := freshDir()
	r := newRec(newTrace(), nil)
	keys := [][]byte{[]byte("k1"), []byte("k2"), []byte("k3")}
	for _, k := range keys {
		r.emit(Ev{"ev": "keys", "key": hx(k)})
	}
	n := 0
	for i := 0; i < rounds; i++ {
		cmd := exec.Command(os.Args[0], "-scen", "C15child", "-seed", strconv.FormatInt(s.rng.Int63(), 10), "-keys", keysFile, "-out", outDir, "-scratch", scratch)
		cmd.Env = append(os.Environ(), "VDS_CHILD="+backend+"|"+dir+"|"+strconv.Itoa(n))
		cmd.Stderr = io.Discard
		out, err := cmd.StdoutPipe()
		must(err)
		forkMu.Lock()
		err = cmd.Start()
		forkMu.Unlock()
		must(err)
		acks := s.rng.Intn(5)
		killAt := time.Duration(s.rng.Intn(3000)) * time.Microsecond
		var once sync.Once
		kill := func() { once.Do(func() { go func() { time.Sleep(killAt); cmd.Process.Kill() }() }) }
		rd := bufio.NewReader(out)
		var last *killed
		started := false
		for {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				break // (half a line is as good as none)
			}
			started = true
			k := &killed{}
			must(json.Unmarshal(line, k))
			n++
			if k.Start {
				last = k
				if acks == 0 {
					kill()
				}
				continue
			}
			last = nil
			acks--
			r.emit(k.Ev)
		}
		err = cmd.Wait()
		if !started || err == nil || !strings.Contains(err.Error(), "killed") {
			// it could not open what its predecessor left behind, or could not work with it
			r.emit(Ev{"ev": "reopen", "code": "child: " + err.Error()})
			return
		}
		var fw *faultWorld
		c := guardErr(func() error { fw = openFault(backend, dir); return nil })
		r.emit(Ev{"ev": "reopen", "code": c})
		if c != "OK" {
			return
		}
		r.svc = fw.w.svc
		if last != nil {
			e := last.Ev
			before := int64(e["size"].(float64))
			delete(e, "size")
			applied := s.interrupted(r, e, before)
			count("kills_in_request", 1)
			if applied {
				count("kills_after_commit", 1)
			}
		}
		s.everySize(r, keys, s.q(30, 15))
		fw.close()
	}
}

// childOfBatch queues mutations until nothing happens any more, or the fault stops it.
func childOfBatch(s *S) {
	f := strings.Split(os.Getenv("VDS_CHILD"), "|")
	n, err := strconv.Atoi(f[2])
	must(err)
	at, err := strconv.Atoi(f[3])
	must(err)
	out := json.NewEncoder(os.Stdout)
	log.SetOutput(io.Discard)
	st, _ := newStorage(f[0], f[1])
	bad := newFaulty(st)
	bad.die, bad.sets = f[4] == "die", s.rng.Intn(4) > 0
	bad.arm(at)
	mut, err := (&batch.Mutator{Writer: bad, BatchSize: 1 + s.rng.Intn(60), BufferSize: 64, Timeout: time.Duration(1+s.rng.Intn(20)) * time.Millisecond}).Create()
	must(err)
	svc, err := (&verifiable.Service{AccessPolicy: policy.Open, Mutator: mut, Reader: st}).Create()
	must(err)
	keys := [][]byte{[]byte("k1"), []byte("k2"), []byte("k3")}
	o := logO
	for i := n; i < n+60; i++ {
		if s.rng.Intn(30) == 0 {
			o = []Obj{logO, mapO}[s.rng.Intn(2)]
		}
		e := Ev{"o": o.id(), "kind": o.Kind}
		if o.Kind == "log" {
			x := i
			if s.rng.Intn(2) == 0 { // something that was queued before and may have been lost
				x = s.rng.Intn(i + 1)
			}
			li := []byte("entry-" + strconv.Itoa(x))
			e["ev"], e["li"], e["ex"], e["fmt"] = "add", hx(li), hx([]byte{byte(i)}), 0
			must(out.Encode(e))
			guard(func() (*pb.LogAddEntryResponse, error) {
				return svc.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: o.log("log"), Value: &pb.LeafData{LeafInput: li, ExtraData: []byte{byte(i)}}})
			})
			continue
		}
		m := s.mut(s.randomSchedule(1, len(keys))[0], keys)
		e["ev"], e["act"], e["key"], e["hv"], e["prev"] = "set", m.Act, hx(m.Key), m.Val != nil, hx(m.Prev)
		e["li"], e["ex"], e["fmt"] = hx(m.Val.GetLeafInput()), hx(m.Val.GetExtraData()), int(m.Val.GetFormat())
		must(out.Encode(e))
		guard(func() (*pb.MapSetValueResponse, error) {
			return svc.MapSetValue(ctx, &pb.MapSetValueRequest{Map: o.mp(), Mutation: &pb.MapMutation{Action: m.Act, Key: m.Key, Value: m.Val, PreviousLeafHash: m.Prev}})
		})
	}
	for last, same := int64(-1), 0; same < 5; time.Sleep(40 * time.Millisecond) {
		now := sizeThrough(svc, logO) + sizeThrough(svc, mapO)
		if same++; now != last {
			last, same = now, 0
		}
	}
}

// batches lets a batching mutator fail or stop at any of its storage accesses: of what was queued, the store has what
// comes before some point, and goes on from there.
func (s *S) batches(backend string, rounds int) {
	dir := freshDir()
	r := newRec(newTrace(), nil)
	keys := [][]byte{[]byte("k1"), []byte("k2"), []byte("k3")}
	for _, k := range keys {
		r.emit(Ev{"ev": "keys", "key": hx(k)})
	}
	for i := 0; i < rounds; i++ {
		how := []string{"die", "fail"}[s.rng.Intn(2)]
		cmd := exec.Command(os.Args[0], "-scen", "C15batch", "-seed", strconv.FormatInt(s.rng.Int63(), 10), "-keys", keysFile, "-out", outDir, "-scratch", scratch)
		cmd.Env = append(os.Environ(), "VDS_CHILD="+strings.Join([]string{backend, dir, strconv.Itoa(i * 60), strconv.Itoa(s.rng.Intn(500)), how}, "|"))
		cmd.Stderr = io.Discard
		out, err := cmd.StdoutPipe()
		must(err)
		forkMu.Lock()
		err = cmd.Start()
		forkMu.Unlock()
		must(err)
		var queued []Ev
		for rd := bufio.NewReader(out); ; {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				break // (half a line is as good as none)
			}
			e := Ev{}
			must(json.Unmarshal(line, &e))
			queued = append(queued, e)
		}
		if err = cmd.Wait(); err != nil {
			count("batch_faults", 1)
			if len(queued) == 0 || !(strings.Contains(err.Error(), "killed") || err.Error() == "exit status 1") {
				r.emit(Ev{"ev": "reopen", "code": "child: " + err.Error()})
				return
			}
		}
		var fw *faultWorld
		c := guardErr(func() error { fw = openFault(backend, dir); return nil })
		r.emit(Ev{"ev": "reopen", "code": c})
		if c != "OK" {
			return
		}
		r.svc = fw.w.svc
		known := map[string]bool{}
		pos := map[string]int64{}
		for _, li := range r.dump[logO.id()+"log"] { // as of the last round
			known[hx(li)] = true
		}
		pos["log"], pos["map"] = int64(len(r.dump[logO.id()+"log"])), int64(len(r.dump[mapO.id()+"mut"]))
		for _, e := range queued {
			k := e["kind"].(string)
			if k == "log" && known[e["li"].(string)] {
				continue
			}
			if s.interrupted(r, e, pos[k]) {
				pos[k]++
				known[e["li"].(string)] = k == "log"
				count("batch_applied", 1)
			} else {
				count("batch_lost", 1)
			}
		}
		s.everySize(r, keys, s.q(40, 20))
		fw.close()
	}
}

func scenFault(s *S) {
	var wg sync.WaitGroup
	par := func(f func(*S)) {
		ss := s.fork()
		wg.Add(1)
		go func() { defer wg.Done(); f(ss) }()
	}
	for _, b := range []string{"bolt", "badger", "postgres"} {
		for i := 0; i < s.q(4, 10); i++ {
			par(func(s *S) { s.faultHistory(b, s.q(12, 24)) })
		}
		par(func(s *S) { s.restarts(b, s.q(6, 16)) })
	}
	for _, b := range []string{"bolt", "badger"} {
		for i := 0; i < s.q(1, 4); i++ {
			par(func(s *S) { s.kills(b, s.q(16, 40)) })
		}
	}
	for _, b := range []string{"bolt", "badger"} {
		for i := 0; i < s.q(2, 5); i++ {
			par(func(s *S) { s.batches(b, s.q(6, 12)) })
		}
	}
	for i := 0; i < s.q(2, 6); i++ {
		par(func(s *S) { s.torn(s.q(6, 14)) })
	}
	wg.Wait()
}
