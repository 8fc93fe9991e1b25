package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"strconv"
	"time"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/pb"
)

func init() {
	scenarios["C01"] = scenHeads
	scenarios["C02"] = scenGrow
	scenarios["C03"] = scenIncl
	scenarios["C04"] = scenCons
	scenarios["C06"] = scenFetch
	scenarios["C07"] = func(s *S) { scenMaps(s, "get") }
	scenarios["C08"] = func(s *S) { scenMaps(s, "mroot") }
	scenarios["C09"] = func(s *S) { scenMaps(s, "mproof") }
	scenarios["C11"] = func(s *S) { scenMaps(s, "lock") }
	scenarios["C12"] = scenStable
}

var logO = Obj{Acc: "acc", Name: "obj", Kind: "log", Key: "key"}
var mapO = Obj{Acc: "acc", Name: "obj", Kind: "map", Key: "key"}

// leaf makes the i-th distinct leaf input; they have all lengths, some are empty, binary, or long.
func leaf(i int) []byte {
	switch {
	case i == 5:
		return []byte{}
	case i == 6:
		return []byte{0}
	case i == 7:
		b := make([]byte, 256)
		for j := range b {
			b[j] = byte(j)
		}
		return b
	case i%29 == 28:
		return stream(i, 1280)
	case i > 7 && i%2 == 1:
		return stream(i, 5+i/2%140)
	}
	return []byte(fmt.Sprintf("leaf-%d", i))
}

// stream makes n bytes that depend on i.
func stream(i, n int) []byte {
	rv := []byte{}
	for j := 0; len(rv) < n; j++ {
		h := sha256.Sum256([]byte(fmt.Sprint(i, j)))
		rv = append(rv, h[:]...)
	}
	return rv[:n]
}

// extra makes extra data, or none.
func (s *S) extra() []byte {
	switch s.rng.Intn(5) {
	case 0:
		return nil
	case 1:
		b := make([]byte, s.rng.Intn(20))
		s.rng.Read(b)
		return b
	case 2:
		return s.bytes()
	}
	return []byte(fmt.Sprintf("{\"n\":%d}", s.rng.Intn(1000)))
}

func (s *S) fmt() pb.DataFormat { return pb.DataFormat(s.rng.Intn(2)) }

// addFresh adds n entries with distinct leaf inputs, from counter c on, and now and then an old one again.
func (s *S) addOne(r *Rec, o Obj, c *int) {
	for *c > 0 && s.rng.Intn(7) == 0 {
		r.add(o, leaf(s.rng.Intn(*c)), s.extra(), s.fmt())
	}
	r.add(o, leaf(*c), s.extra(), s.fmt())
	*c++
}

// waitSize waits until a log has n entries.
func waitSize(svc service, o Obj, lt string, n int64) {
	for i := 0; i < 2000; i++ {
		v, c := guard(func() (*pb.LogTreeHashResponse, error) {
			return svc.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: o.log(lt)})
		})
		if c == "OK" && v.TreeSize >= n {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// KeySet returns n keys: some at random, others with positions that share long prefixes.
// crowd is a key and others that part from it at different depths, so that its audit paths are long.
func (s *S) crowd() [][]byte {
	rv := [][]byte{[]byte(s.keys.Base)}
	for _, k := range sortedKeys(s.keys.Cluster) {
		rv = append(rv, []byte(s.keys.Cluster[k]))
	}
	return rv
}

func (s *S) keySet(n int) [][]byte {
	s.pool = map[int][]byte{}
	var rv [][]byte
	seen := map[string]bool{}
	put := func(k string) {
		if len(rv) < n && !seen[k] {
			seen[k] = true
			rv = append(rv, []byte(k))
		}
	}
	switch s.rng.Intn(5) {
	case 0: // a cluster
		put(s.keys.Base)
		ks := sortedKeys(s.keys.Cluster)
		s.rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for _, k := range ks {
			put(s.keys.Cluster[k])
		}
	case 1: // close pairs
		ks := sortedKeys(s.keys.Pairs)
		s.rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for _, k := range ks {
			put(s.keys.Pairs[k][0])
			put(s.keys.Pairs[k][1])
		}
	case 2: // triples
		for _, i := range s.rng.Perm(len(s.keys.Triples)) {
			for _, k := range s.keys.Triples[i] {
				put(k)
			}
		}
	case 3: // longest
		for l := 51; l > 0; l-- {
			if p, ok := s.keys.Pairs[strconv.Itoa(l)]; ok {
				put(p[0])
				put(p[1])
			}
		}
	}
	if s.rng.Intn(3) == 0 {
		put("")
		put("\x00\xff\xfe")
	}
	if s.rng.Intn(3) == 0 { // long ones that differ at one place only
		b := make([]byte, []int{33, 65, 129, 257, 600, 1100, 5000}[s.rng.Intn(7)])
		s.rng.Read(b)
		put(string(b))
		b[[]int{0, len(b) / 2, len(b) - 1}[s.rng.Intn(3)]] ^= 4
		put(string(b))
	}
	for i := s.rng.Intn(6) - 3; i > 0; i-- {
		put(string(s.bytes()))
	}
	for len(rv) < n {
		put(fmt.Sprintf("r%d", s.rng.Intn(1<<30)))
	}
	s.rng.Shuffle(n, func(i, j int) { rv[i], rv[j] = rv[j], rv[i] })
	return rv
}

// Step is a step of a map schedule generated from the specification (GenMap): key and values by index, 0 the empty value.
type Step struct {
	Act  string `json:"a"`
	K    int    `json:"k"`
	V    int    `json:"v"`
	Prev int    `json:"p"` // index of the value whose leaf hash is stated; -1 a foreign hash, -2 none
	B    []int  `json:"b"` // bits of the key's position, in schedules of GenKVMap
}

func val(i int) []byte {
	switch i {
	case 0:
		return []byte{}
	case 1:
		return []byte("value-one")
	case 2:
		return []byte{0, 1, 2, 255}
	}
	return []byte(fmt.Sprintf("value-%d", i))
}

// val is val(i), or other bytes that stand for it.
func (s *S) val(i int) []byte {
	if i > 0 && s.pool != nil {
		if s.pool[i] == nil {
		again:
			v := val(i)
			if s.rng.Intn(4) > 0 {
				v = s.bytes()
			}
			for _, x := range s.pool {
				if string(x) == string(v) {
					goto again
				}
			}
			s.pool[i] = v
		}
		return s.pool[i]
	}
	return val(i)
}

// mut makes the mutation of a step; extra data differs on every use.
func (s *S) mut(st Step, keys [][]byte) Mut {
	m := Mut{Act: st.Act, Key: keys[st.K-1]}
	if st.Act != "delete" {
		m.Val = &pb.LeafData{LeafInput: s.val(st.V), ExtraData: s.extra(), Format: s.fmt()}
	}
	switch st.Prev {
	case -2:
	case -1:
		m.Prev = s.nearHash(s.val(s.rng.Intn(4)))
	default:
		m.Prev = leafHash(s.val(st.Prev))
	}
	// what the action does not need is still part of the request
	if st.Act != "update" && s.rng.Intn(4) == 0 {
		m.Prev = leafHash(s.val(s.rng.Intn(3)))
	}
	if st.Act == "delete" && s.rng.Intn(4) == 0 {
		m.Val = &pb.LeafData{LeafInput: s.val(s.rng.Intn(4)), ExtraData: s.extra(), Format: s.fmt()}
	}
	if s.rng.Intn(3) == 0 {
		m.Ts = []string{"2020-02-02T02:02:02.000000002Z", "2030-01-01T00:00:00Z", "soon"}[s.rng.Intn(3)]
	}
	return m
}

// nearHash is not a leaf hash, or that of something else, and resembles the one of a value.
func (s *S) nearHash(v []byte) []byte {
	h := leafHash(v)
	switch s.rng.Intn(6) {
	case 0:
		return h[:1+s.rng.Intn(31)]
	case 1:
		return h[:[]int{31, 20, 16, 8}[s.rng.Intn(4)]]
	case 2:
		return append(h, make([]byte, 1+s.rng.Intn(2)*31)...)
	case 3:
		return append([]byte{0}, h...)
	case 4:
		h[s.rng.Intn(32)] ^= 1 << uint(s.rng.Intn(8))
		return h
	}
	return leafHash([]byte("foreign"))
}

func (s *S) schedules() [][]Step {
	var rv [][]Step
	for _, p := range s.plan {
		var x []Step
		must(json.Unmarshal(p, &x))
		rv = append(rv, x)
	}
	return rv
}

// bitKeys numbers the keys of a schedule that gives them by bits, and finds real keys whose positions have those
// bits from some depth on and agree before it. There is one key more than the schedule uses.
func (s *S) bitKeys(sc []Step) ([]Step, [][]byte) {
	s.pool = map[int][]byte{}
	off := []int{0, 0, 1, 5, 6, 7, 8, 12}[s.rng.Intn(8)]
	var base [32]byte
	s.rng.Read(base[:])
	bit := func(h [32]byte, i int) int { return int(h[i/8]>>uint(7-i%8)) & 1 }
	no := map[string]int{}
	var paths [][]int
	out := append([]Step{}, sc...)
	for i := range out {
		id := fmt.Sprint(out[i].B)
		if no[id] == 0 {
			paths = append(paths, out[i].B)
			no[id] = len(paths)
		}
		out[i].K = no[id]
	}
	other := append([]int{}, paths[s.rng.Intn(len(paths))]...) // a neighbour, or a key at the same bits
	other[s.rng.Intn(len(other))] ^= s.rng.Intn(2)
	paths = append(paths, other)
	var rv [][]byte
	start := s.rng.Intn(1 << 30)
	for _, p := range paths {
	next:
		for n := start; ; n++ {
			k := fmt.Sprint("b", n)
			h := sha256.Sum256([]byte(k))
			for i := 0; i < off; i++ {
				if bit(h, i) != bit(base, i) {
					continue next
				}
			}
			for i, b := range p {
				if bit(h, off+i) != b {
					continue next
				}
			}
			for _, x := range rv {
				if string(x) == k {
					continue next
				}
			}
			rv = append(rv, []byte(k))
			break
		}
	}
	return out, rv
}

func maxKey(sc []Step) int {
	n := 1
	for _, x := range sc {
		if x.K > n {
			n = x.K
		}
	}
	return n
}

// randomSchedule makes a long schedule over n keys.
func (s *S) randomSchedule(length, n int) []Step {
	cur := map[int]int{}
	var rv []Step
	for i := 0; i < length; i++ {
		k := 1 + s.rng.Intn(n)
		v := 1 + s.rng.Intn(4)
		switch x := s.rng.Intn(10); {
		case x < 4:
			rv = append(rv, Step{"set", k, v, -2, nil})
			cur[k] = v
		case x < 6:
			rv = append(rv, Step{"delete", k, 0, -2, nil})
			cur[k] = 0
		case x < 8:
			rv = append(rv, Step{"update", k, v, cur[k], nil})
			cur[k] = v
		default:
			p := s.rng.Intn(5)
			rv = append(rv, Step{"update", k, v, p, nil})
			if p == cur[k] {
				cur[k] = v
			}
		}
	}
	return rv
}

// C01

func scenHeads(s *S) {
	emptyHeads := func(r *Rec) {
		r.head(logO, "log", 0)
		r.head(mapO, "mut", 0)
		r.head(mapO, "head", 0)
	}
	one := func(w *World, n int, every bool) {
		defer w.close()
		r := newRec(newTrace(), w.cl)
		emptyHeads(r)
		for i, c := 0, 0; i < n; i++ {
			s.addOne(r, logO, &c)
			if every || i == n-1 {
				m := r.ents(logO, "log")
				r.head(logO, "log", 0)
				r.head(logO, "log", int64(1+s.rng.Intn(m)))
			}
		}
		for i := 1; i <= n; i++ {
			r.head(logO, "log", int64(i))
		}
	}
	one(newWorld(WC{}), 72, true)
	one(newWorld(WC{Backend: "bolt"}), 20, true)
	one(newWorld(WC{Backend: "badger"}), 20, true)
	one(newWorld(WC{}), s.q(270, 1100), false)
	// entries of every length
	for i, c := range []WC{{}, {Backend: "bolt", Transport: "grpc"}} {
		w := newWorld(c)
		r := newRec(newTrace(), w.cl)
		n := s.q([]int{300, 140}[i], []int{600, 300}[i])
		for j := 0; j < n; j++ {
			r.add(logO, stream(1000+i, j), s.extra(), s.fmt())
		}
		for _, k := range []int{1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, s.q(200000, 3000000)} {
			r.add(logO, stream(2000, k), nil, 0)
		}
		r.ents(logO, "log")
		for j := 1; j <= n+10; j += 1 + s.rng.Intn(3) {
			r.head(logO, "log", int64(j))
		}
		r.head(logO, "log", int64(n+10))
		w.close()
	}
	// many entries applied together
	for _, bs := range []int{1, 3, 8, 64} {
		w := newWorld(WC{Mutator: "batch", BatchSize: bs, BufferSize: 16, Timeout: 20 * time.Millisecond, Backend: []string{"memory", "bolt"}[bs%2]})
		r := newRec(newTrace(), w.cl)
		n := s.q(40, 200)
		for i := 0; i < n; i++ {
			r.add(logO, leaf(i), nil, 0)
		}
		waitSize(w.svc, logO, "log", int64(n))
		r.ents(logO, "log")
		for i := 0; i <= n; i++ {
			r.head(logO, "log", int64(i))
		}
		w.close()
	}
	s.hugeLog(func(r *Rec, sizes []int) {
		for _, m := range sizes {
			r.head(logO, "log", int64(m))
		}
		for k := 1; k < len(r.dump[logO.id()+"log"]); k *= 2 {
			r.head(logO, "log", int64(k))
			r.head(logO, "log", int64(k+1))
		}
	})
	// maps
	for i := 0; i < s.q(3, 12); i++ {
		w := newWorld(WC{Backend: []string{"memory", "bolt", "badger"}[i%3]})
		r := newRec(newTrace(), w.cl)
		keys := s.keySet(6)
		sc := s.randomSchedule(s.q(34, 70), 6)
		for _, st := range sc {
			r.set(mapO, s.mut(st, keys))
			n := r.ents(mapO, "mut")
			r.ents(mapO, "head")
			for _, lt := range []string{"mut", "head"} {
				r.head(mapO, lt, 0)
				r.head(mapO, lt, int64(1+s.rng.Intn(n)))
			}
		}
		for i := range sc {
			r.head(mapO, "mut", int64(i+1))
			r.head(mapO, "head", int64(i+1))
		}
		w.close()
	}
}

// C02

func scenGrow(s *S) {
	for i, c := range []WC{{}, {Backend: "bolt"}, {Backend: "badger"}, {Mutator: "batch", BatchSize: 4, BufferSize: 4, Timeout: 3 * time.Millisecond},
		{Transport: "grpc"}, {}} {
		w := newWorld(c)
		r := newRec(newTrace(), w.cl)
		n := s.q(45, 160)
		size := 0
		have := map[string]bool{}
		for j := 0; j < n; j++ {
			x := s.rng.Intn(size + 1)
			if s.rng.Intn(3) > 0 {
				x = len(have)
			}
			li := leaf(x + 3)
			if i == 5 && s.rng.Intn(4) == 0 { // entries that look like tree material
				switch s.rng.Intn(3) {
				case 0:
					li = leafHash(leaf(s.rng.Intn(8)))
				case 1:
					li = append(leafHash(leaf(s.rng.Intn(4))), leafHash(leaf(s.rng.Intn(4)))...)
				case 2:
					li = append([]byte{1}, leafHash(leaf(s.rng.Intn(4)))...)
				}
			}
			r.add(logO, li, s.extra(), s.fmt())
			have[string(li)] = true
			size = len(have)
			if c.Mutator == "batch" {
				waitSize(w.svc, logO, "log", int64(size))
				time.Sleep(8 * time.Millisecond) // a duplicate leaves nothing to wait for
			}
			r.ents(logO, "log")
			r.head(logO, "log", 0)
		}
		w.close()
	}
}

// bigLog asks questions about a log of more than a thousand entries at sizes with many and with few bits set.
func (s *S) bigLog(f func(r *Rec, sizes []int)) {
	w := newWorld(WC{})
	defer w.close()
	r := newRec(newTrace(), w.cl)
	n := s.q(1030, 2060)
	for j, c := 0, 0; j < n; j++ {
		s.addOne(r, logO, &c)
	}
	n = r.ents(logO, "log")
	sizes := []int{n, 511, 512, 513, 767, 768, 895, 1007, 1021, 1022, 1023, 1024, 1025, 1026}
	for i := 0; i < s.q(10, 80); i++ {
		sizes = append(sizes, 1+s.rng.Intn(n))
	}
	f(r, sizes)
}

// hugeLog does the same with more entries than two bytes can count.
func (s *S) hugeLog(f func(r *Rec, sizes []int)) {
	w := newWorld(WC{})
	defer w.close()
	r := newRec(newTrace(), w.cl)
	n := 65536 + 2 + s.rng.Intn(300)
	for j := 0; j < n; j++ {
		_, err := w.svc.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: logO.log("log"), Value: &pb.LeafData{LeafInput: []byte(fmt.Sprint(j))}})
		if err != nil {
			break // the size tells
		}
	}
	if m := r.ents(logO, "log"); m != n {
		r.emit(Ev{"ev": "same", "a": m, "b": n})
		return
	}
	sizes := []int{n, n - 1, 65537, 65536, 65535, 32768, 32769, 40000, 16385, 8191, 4097, 4096, 4095, 2049, 257, 256, 255}
	for i := 0; i < s.q(6, 60); i++ {
		sizes = append(sizes, 1+s.rng.Intn(n))
	}
	r.head(logO, "log", 0)
	f(r, sizes)
}

// edges gives indices below m: the outermost, those around powers of two, and some at random.
func (s *S) edges(m int) []int {
	rv := []int{}
	seen := map[int]bool{}
	put := func(i int) {
		if i >= 0 && i < m && !seen[i] {
			seen[i] = true
			rv = append(rv, i)
		}
	}
	put(0)
	put(m - 1)
	put(m - 2)
	for k := 1; k < m; k *= 2 {
		if s.rng.Intn(2) == 0 {
			put(k - 1 + s.rng.Intn(3))
			put(m - k)
		}
	}
	for i := 0; i < 3; i++ {
		put(s.rng.Intn(m))
	}
	return rv
}

// ranges goes through pairs of small and of very large numbers, and checks the arithmetic of trees on the way.
func (s *S) ranges(f func(t *Tr, m, n int64)) {
	t := newTrace()
	for n := int64(1); n <= int64(s.q(40, 80)); n++ {
		for m := int64(0); m <= n; m++ {
			f(t, m, n)
		}
		t.emit(Ev{"ev": "calck", "n": n, "k": merkle.CalcK(n), "p": merkle.IsPow2(n)})
	}
	for i := 0; i < s.q(400, 4000); i++ {
		n := 1 + s.rng.Int63n(1<<uint(1+s.rng.Intn(30)))
		if s.rng.Intn(3) == 0 {
			n = max(1, min(1<<30-1, int64(1)<<uint(s.rng.Intn(30))+s.rng.Int63n(3)-1))
		}
		m := s.rng.Int63n(n + 1)
		switch s.rng.Intn(4) {
		case 0:
			m = n - s.rng.Int63n(min(n, 3))
		case 1:
			m = min(n, int64(1)<<uint(s.rng.Intn(30))+s.rng.Int63n(3)-1)
		}
		f(t, m, n)
		t.emit(Ev{"ev": "calck", "n": n, "k": merkle.CalcK(n), "p": merkle.IsPow2(n)})
	}
}

func nz(x [][2]int64) [][2]int64 {
	if x == nil {
		return [][2]int64{}
	}
	return x
}

// C03

func scenIncl(s *S) {
	absent := leafHash([]byte("not in any log"))
	all := func(r *Rec, o Obj, lt string, pairs int) {
		d := r.dump[o.id()+lt]
		n := len(d)
		ask := func(i, m int) {
			if s.rng.Intn(2) == 0 {
				r.inclIdx(o, lt, int64(i), int64(m))
				r.inclHash(o, lt, leafHash(d[i]), int64(m))
			} else {
				r.inclHash(o, lt, leafHash(d[i]), int64(m))
				r.inclIdx(o, lt, int64(i), int64(m))
			}
		}
		if pairs == 0 {
			for m := 1; m <= n; m++ {
				for i := 0; i < m; i++ {
					ask(i, m)
				}
			}
		}
		for j := 0; j < pairs; j++ {
			m := 1 + s.rng.Intn(n)
			ask(s.rng.Intn(m), m)
		}
		for i := 0; i < n; i += 1 + n/20 {
			ask(i, 0)
		}
		// what has no proof
		for j := 0; j < 12; j++ {
			m := 1 + s.rng.Intn(n)
			r.inclIdx(o, lt, int64(m), int64(m))
			r.inclIdx(o, lt, int64(m)+int64(s.rng.Intn(5)), int64(m))
			if m < n {
				r.inclHash(o, lt, leafHash(d[m]), int64(m))
				r.inclHash(o, lt, leafHash(d[m+s.rng.Intn(n-m)]), int64(m))
			}
			r.inclHash(o, lt, absent, int64(m))
			r.inclHash(o, lt, s.nearHash(d[s.rng.Intn(n)]), int64(m))
			r.inclHash(o, lt, s.nearHash(d[s.rng.Intn(m)]), 0)
		}
		r.inclHash(o, lt, absent, 0)
		r.inclIdx(o, lt, -1, 0)
		r.inclIdx(o, lt, int64(n), 0)
		r.inclIdx(o, lt, 1<<40, 0)
		r.inclIdx(o, lt, 0, int64(n+1))
		r.inclHash(o, lt, leafHash(d[0]), int64(n+1))
		r.inclHash(o, lt, leafHash(d[0]), -1)
	}
	empty := func(r *Rec, o Obj, lt string) {
		r.inclIdx(o, lt, 0, 0)
		r.inclIdx(o, lt, 0, 1)
		r.inclHash(o, lt, absent, 0)
	}
	// every size the log had when it was the current one, then every pair
	for i, c := range []WC{{}, {Backend: "bolt"}, {Mutator: "batch", BatchSize: 5, BufferSize: 8, Timeout: 10 * time.Millisecond}, {Backend: "badger"}} {
		w := newWorld(c)
		r := newRec(newTrace(), w.cl)
		empty(r, logO, "log")
		top := s.q([]int{33, 18, 18, 10}[i], []int{66, 34, 34, 20}[i])
		for j, cn := 0, 0; j < top; j++ {
			s.addOne(r, logO, &cn)
			if c.Mutator == "batch" && j < top-1 {
				continue
			}
			waitSize(w.svc, logO, "log", int64(cn))
			n := r.ents(logO, "log")
			for m := 0; m < 3; m++ {
				r.inclIdx(logO, "log", int64(s.rng.Intn(n)), 0)
				r.inclHash(logO, "log", leafHash(r.dump[logO.id()+"log"][s.rng.Intn(n)]), 0)
			}
		}
		all(r, logO, "log", 0)
		w.close()
	}
	for i := 0; i < s.q(3, 6); i++ { // large
		w := newWorld(WC{})
		r := newRec(newTrace(), w.cl)
		n := s.q([]int{130, 256, 300}[i%3], 200+s.rng.Intn(400))
		for j, c := 0, 0; j < n; j++ {
			s.addOne(r, logO, &c)
		}
		r.ents(logO, "log")
		all(r, logO, "log", s.q(250, 1500))
		w.close()
	}
	ask := func(r *Rec, sizes []int) {
		d := r.dump[logO.id()+"log"]
		for _, m := range sizes {
			for _, i := range s.edges(m) {
				r.inclIdx(logO, "log", int64(i), int64(m))
				if s.rng.Intn(3) == 0 {
					r.inclHash(logO, "log", leafHash(d[i]), int64(m))
				}
			}
		}
	}
	s.bigLog(ask)
	s.hugeLog(ask)
	s.ranges(func(t *Tr, m, n int64) {
		if m < n {
			t.emit(Ev{"ev": "path", "m": m, "n": n, "v": nz(merkle.Path(m, 0, n))})
		}
	})
	for i := 0; i < s.q(2, 6); i++ { // logs of maps
		w := newWorld(WC{Backend: []string{"memory", "bolt"}[i%2]})
		r := newRec(newTrace(), w.cl)
		empty(r, mapO, "mut")
		empty(r, mapO, "head")
		keys := s.keySet(5)
		for _, st := range s.randomSchedule(s.q(17, 34), 5) {
			r.set(mapO, s.mut(st, keys))
		}
		r.ents(mapO, "mut")
		r.ents(mapO, "head")
		all(r, mapO, "mut", 0)
		all(r, mapO, "head", 0)
		w.close()
	}
}

// C04

func scenCons(s *S) {
	all := func(r *Rec, o Obj, lt string, pairs int) {
		n := len(r.dump[o.id()+lt])
		if pairs == 0 {
			for m := 2; m <= n; m++ {
				for f := 1; f < m; f++ {
					r.cons(o, lt, int64(f), int64(m))
				}
			}
		}
		for j := 0; j < pairs && n > 1; j++ {
			m := 2 + s.rng.Intn(n-1)
			r.cons(o, lt, int64(1+s.rng.Intn(m-1)), int64(m))
		}
		for f := 1; f < n; f += 1 + n/24 {
			r.cons(o, lt, int64(f), 0)
		}
		for _, f := range []int{-5, -1, 0, 1, n - 1, n, n + 1, 1 << 40} {
			for _, m := range []int{-5, -1, 0, 1, n - 1, n, n + 1, 1 << 40} {
				if !(f >= 1 && f < m && m <= n) {
					r.cons(o, lt, int64(f), int64(m))
				}
			}
		}
		for j := 0; j < 10; j++ {
			m := 1 + s.rng.Intn(n)
			r.cons(o, lt, int64(m), int64(m))
			r.cons(o, lt, int64(m+s.rng.Intn(4)), int64(m))
			r.cons(o, lt, int64(-s.rng.Intn(4)), int64(m))
			r.cons(o, lt, int64(m), int64(n+1+s.rng.Intn(9)))
		}
	}
	empty := func(r *Rec, o Obj, lt string) {
		for _, f := range []int64{-1, 0, 1} {
			for _, m := range []int64{0, 1, 2} {
				r.cons(o, lt, f, m)
			}
		}
	}
	for i, c := range []WC{{}, {Backend: "bolt"}, {Mutator: "batch", BatchSize: 5, BufferSize: 8, Timeout: 10 * time.Millisecond}, {Backend: "badger"}} {
		w := newWorld(c)
		r := newRec(newTrace(), w.cl)
		empty(r, logO, "log")
		top := s.q([]int{34, 18, 18, 10}[i], []int{80, 34, 34, 20}[i])
		for j, cn := 0, 0; j < top; j++ {
			s.addOne(r, logO, &cn)
			if c.Mutator == "batch" && j < top-1 {
				continue
			}
			waitSize(w.svc, logO, "log", int64(cn))
			n := r.ents(logO, "log")
			r.cons(logO, "log", int64(1+s.rng.Intn(n)), 0)
			r.cons(logO, "log", int64(n-1), int64(n))
		}
		all(r, logO, "log", 0)
		w.close()
	}
	for i := 0; i < s.q(3, 6); i++ {
		w := newWorld(WC{})
		r := newRec(newTrace(), w.cl)
		n := s.q([]int{130, 256, 300}[i%3], 200+s.rng.Intn(400))
		for j, c := 0, 0; j < n; j++ {
			s.addOne(r, logO, &c)
		}
		r.ents(logO, "log")
		all(r, logO, "log", s.q(500, 3000))
		w.close()
	}
	ask := func(r *Rec, sizes []int) {
		for _, m := range sizes {
			for _, f := range append(s.edges(m), sizes...) {
				if f > 0 && f < m {
					r.cons(logO, "log", int64(f), int64(m))
				}
			}
		}
	}
	s.bigLog(ask)
	s.hugeLog(ask)
	s.ranges(func(t *Tr, m, n int64) {
		if m > 0 && m <= n {
			t.emit(Ev{"ev": "proof", "m": m, "n": n, "v": nz(merkle.SubProof(m, 0, n, true))})
		}
	})
	for i := 0; i < s.q(2, 6); i++ {
		w := newWorld(WC{Backend: []string{"memory", "bolt"}[i%2]})
		r := newRec(newTrace(), w.cl)
		empty(r, mapO, "mut")
		empty(r, mapO, "head")
		keys := s.keySet(5)
		for _, st := range s.randomSchedule(s.q(19, 34), 5) {
			r.set(mapO, s.mut(st, keys))
		}
		r.ents(mapO, "mut")
		r.ents(mapO, "head")
		all(r, mapO, "mut", 0)
		all(r, mapO, "head", 0)
		w.close()
	}
}

// C06

func scenFetch(s *S) {
	ranges := func(r *Rec, o Obj, lt string, n int) {
		for a := -2; a <= n+2; a++ {
			for b := -2; b <= n+2; b++ {
				r.fetch(o, lt, int64(a), int64(b))
			}
		}
		for a := 0; a < n; a++ {
			r.single(o, lt, int64(a))
		}
		r.single(o, lt, int64(n))
		r.single(o, lt, -1)
		for i := 0; i < 8; i++ {
			a := s.rng.Intn(n)
			r.stream(o, lt, int64(a), int64(a+1+s.rng.Intn(n-a)))
		}
		for _, x := range []int64{1 << 31, 1 << 40, 1<<62 + 5, -1 << 40} {
			r.fetch(o, lt, 0, x)
			r.fetch(o, lt, x, 0)
			r.fetch(o, lt, x, x+1)
		}
	}
	sizes := func(r *Rec, o Obj, lt string, n int) {
		for _, x := range []int64{-1, -2, -1 << 40, int64(n + 1), int64(n + 2), int64(2*n + 1), 1 << 33} {
			r.head(o, lt, x)
			r.inclIdx(o, lt, 0, x)
			r.inclIdx(o, lt, int64(n), x)
			r.inclHash(o, lt, leafHash(leaf(0)), x)
			r.inclHash(o, lt, leafHash([]byte("absent")), x)
			r.cons(o, lt, 1, x)
			r.cons(o, lt, x, 0)
			r.cons(o, lt, x, int64(n))
			if lt != "log" {
				r.mhead(o, x)
				r.get(o, []byte("r1"), x)
			}
		}
	}
	for i, c := range []WC{{}, {Backend: "bolt"}, {Backend: "badger"}, {Transport: "grpc"}} {
		w := newWorld(c)
		r := newRec(newTrace(), w.cl)
		r.ents(logO, "log")
		r.single(logO, "log", 0)
		sizes(r, logO, "log", 0)
		n := 12 - 2*i
		for j, cn := 0, 0; j < n; j++ {
			s.addOne(r, logO, &cn)
		}
		r.ents(logO, "log")
		ranges(r, logO, "log", n)
		sizes(r, logO, "log", n)
		w.close()

		w = newWorld(c)
		r = newRec(newTrace(), w.cl)
		for _, lt := range []string{"mut", "head"} {
			r.ents(mapO, lt)
			sizes(r, mapO, lt, 0)
		}
		keys := append(s.keySet(3), []byte("r1"))
		for _, st := range s.randomSchedule(n, 4) {
			r.set(mapO, s.mut(st, keys))
		}
		for _, lt := range []string{"mut", "head"} {
			r.ents(mapO, lt)
			ranges(r, mapO, lt, n)
			sizes(r, mapO, lt, n)
		}
		w.close()
	}
	// streams longer than the batches they are read in
	w := newWorld(WC{})
	r := newRec(newTrace(), w.cl)
	n := 1203
	for j := 0; j < n; j++ {
		r.add(logO, leaf(j), s.extra(), s.fmt())
	}
	r.ents(logO, "log")
	for _, x := range [][2]int{{0, n}, {0, 499}, {0, 500}, {0, 501}, {1, 500}, {1, 501}, {1, 502}, {200, 1200}, {n - 501, n}, {0, 1000}, {0, 1001}, {3, 1003}} {
		r.stream(logO, "log", int64(x[0]), int64(x[1]))
	}
	for i := 0; i < s.q(6, 30); i++ {
		a := s.rng.Intn(n)
		r.stream(logO, "log", int64(a), int64(a+1+s.rng.Intn(n-a)))
		r.fetch(logO, "log", int64(a), int64(a+1+s.rng.Intn(n-a)))
	}
	w.close()
	s.hugeLog(func(r *Rec, sizes []int) {
		for _, m := range sizes {
			r.fetch(logO, "log", int64(m-1), int64(m))
			r.fetch(logO, "log", int64(max(0, m-1-s.rng.Intn(20))), int64(m))
		}
		r.fetch(logO, "log", 65530, 0)
		r.stream(logO, "log", 64900, 65538)
		r.single(logO, "log", 65536)
	})
}

// Maps: C07, C08, C09, C11

func scenMaps(s *S, facet string) {
	i := 0
	var r *Rec
	var w *World
	per := 1
	run := func(sc []Step, c WC, nk int, every bool) {
		if c.Backend == "" && c.Mutator == "" {
			// short schedules share a trace
			if w == nil || i%per == 0 {
				if w != nil {
					w.close()
				}
				w = newWorld(WC{})
				r = newRec(newTrace(), w.cl)
			}
		} else {
			if w != nil {
				w.close()
			}
			w = newWorld(c)
			r = newRec(newTrace(), w.cl)
			i = -1
		}
		i++
		r.reset()
		o := Obj{Acc: "acc", Name: fmt.Sprintf("m%d", i), Kind: "map", Key: "key"}
		var keys [][]byte
		if nk == 0 {
			sc, keys = s.bitKeys(sc)
		} else {
			keys = s.keySet(nk + 1) // one more than the schedule knows
		}
		look := func(size int64, some int) {
			if facet == "get" || facet == "mproof" {
				for j, k := range s.rng.Perm(len(keys)) {
					if j >= some {
						break
					}
					r.get(o, keys[k], size)
				}
			} else {
				r.mhead(o, size)
			}
		}
		dump := func() {
			r.ents(o, "mut")
			if facet == "lock" {
				r.ents(o, "head")
				r.head(o, "mut", 0)
				r.head(o, "head", 0)
			}
		}
		look(0, 2)
		var last Mut
		for _, st := range sc {
			m := s.mut(st, keys)
			if again := last.Key != nil && s.rng.Intn(8) == 0; again && len(sc) > 4 {
				m = last // word for word
			}
			last = m
			r.set(o, m)
			if every && c.Mutator == "" {
				dump()
				look(0, len(keys))
			}
		}
		if c.Mutator != "" {
			waitSize(w.svc, o, "head", int64(len(sc)))
		}
		dump()
		look(0, len(keys))
		if len(sc) <= 6 {
			for n := 1; n <= len(sc); n++ {
				look(int64(n), len(keys))
			}
		} else {
			step := 1 + len(sc)/100
			for n := 1; n <= len(sc); n += 1 + s.rng.Intn(step) {
				look(int64(n), 3)
			}
		}
	}
	var scs, bits [][]Step
	for _, sc := range s.schedules() {
		if len(sc[0].B) > 0 {
			bits = append(bits, sc)
		} else {
			scs = append(scs, sc)
		}
	}
	s.rng.Shuffle(len(bits), func(i, j int) { bits[i], bits[j] = bits[j], bits[i] })
	scs = append(scs, bits[:min(len(bits), s.q(400, 6000))]...)
	per = len(scs)/16 + 1
	for _, sc := range scs {
		if len(sc[0].B) > 0 {
			run(sc, WC{}, 0, false)
		} else {
			run(sc, WC{}, maxKey(sc), false)
		}
	}
	per = 1
	for j := 0; j < s.q(8, 24); j++ {
		run(s.randomSchedule(s.q(20, 60), 6), WC{}, 6, true)
	}
	for j, b := range []WC{{Backend: "bolt"}, {Backend: "badger"}, {Backend: "bolt"}, {Mutator: "batch", BatchSize: 4, BufferSize: 8, Timeout: 5 * time.Millisecond},
		{Mutator: "batch", BatchSize: 64, BufferSize: 64, Timeout: 5 * time.Millisecond, Backend: "bolt"}} {
		run(s.randomSchedule(s.q(20, 50), 5), b, 5, j < 2)
	}
	// many keys
	for j := 0; j < s.q(2, 6); j++ {
		run(s.randomSchedule(s.q(60, 200), 24), WC{}, 24, false)
	}
	run(s.randomSchedule(s.q(530, 1500), 12), WC{}, 12, false) // more than a byte can count
	w.close()
	if facet == "get" { // a value that is the leaf input of an entry of the map's own mutation log
		w = newWorld(WC{})
		r = newRec(newTrace(), w.cl)
		v := &pb.LeafData{LeafInput: []byte("v"), ExtraData: []byte("x")}
		r.set(mapO, Mut{Act: "set", Key: []byte("k"), Val: v})
		r.ents(mapO, "mut")
		li := r.dump[mapO.id()+"mut"][0]
		r.set(mapO, Mut{Act: "set", Key: []byte("same-as-entry"), Val: &pb.LeafData{LeafInput: li, ExtraData: []byte("mine")}})
		r.ents(mapO, "mut")
		r.get(mapO, []byte("k"), 0)
		r.get(mapO, []byte("same-as-entry"), 0)
		w.close()
	}
}

// C12

func scenStable(s *S) {
	for i, c := range []WC{{}, {Backend: "bolt"}, {}, {Backend: "badger"}} {
		w := newWorld(c)
		r := newRec(newTrace(), w.cl)
		keys := s.keySet(4)
		nLog, nMut := 0, 0
		probe := func() {
			ask := func(o Obj, lt string, n int) {
				if n == 0 {
					return
				}
				d := r.dump[o.id()+lt]
				for m := 1; m <= n; m++ {
					r.head(o, lt, int64(m))
					r.fetch(o, lt, int64(m-1), int64(m))
				}
				for j := 0; j < 8; j++ {
					m := 1 + s.rng.Intn(n)
					x := s.rng.Intn(m)
					r.inclIdx(o, lt, int64(x), int64(m))
					r.inclHash(o, lt, leafHash(d[x]), int64(m))
					if m > 1 {
						r.cons(o, lt, int64(1+s.rng.Intn(m-1)), int64(m))
					}
				}
			}
			nLog = r.ents(logO, "log")
			nMut = r.ents(mapO, "mut")
			r.ents(mapO, "head")
			ask(logO, "log", nLog)
			ask(mapO, "mut", nMut)
			ask(mapO, "head", nMut)
			for n := 1; n <= nMut; n++ {
				r.mhead(mapO, int64(n))
				for _, k := range keys {
					r.get(mapO, k, int64(n))
				}
			}
		}
		sc := s.randomSchedule(s.q(10, 24), 3)
		if i == 2 { // values come back, with other data
			sc = []Step{{"set", 1, 1, -2, nil}, {"set", 1, 2, -2, nil}, {"set", 1, 1, -2, nil}, {"delete", 1, 0, -2, nil}, {"set", 2, 1, -2, nil}, {"set", 1, 1, -2, nil},
				{"update", 1, 2, 1, nil}, {"update", 1, 3, 1, nil}, {"set", 3, 3, -2, nil}, {"set", 3, 2, -2, nil}}
		}
		for j, st := range sc {
			r.set(mapO, s.mut(st, keys))
			for k := 0; k < 1+j%2; k++ {
				r.add(logO, leaf(s.rng.Intn(2*j+2)), s.extra(), s.fmt())
			}
			if j%4 == 3 { // refused requests
				r.mhead(mapO, 99)
				r.set(mapO, Mut{Act: "set", Key: keys[0]})
				r.add(Obj{Acc: "acc", Name: "obj", Kind: "log"}, leaf(1), []byte("again"), 0)
			}
			if j%3 == 2 || j == len(sc)-1 {
				probe()
			}
		}
		w.close()
	}
}
