package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strconv"
	"strings"
	"sync"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	scenarios["C25rest"] = scenRest
	scenarios["C25twin"] = scenTransports
}

// Part one: requests written by hand.

type restUser struct {
	*Tr
	s    *S
	w    *World
	o    Obj // its log and its map
	vals [][]byte
	keys []string // those given as text; keys in hexadecimal stand for these and others
	bin  [][]byte
}

func (u *restUser) log(lt string) string {
	switch lt {
	case "log":
		return "/account/" + u.o.Acc + "/log/" + u.o.Name
	case "mut":
		return u.mp() + "/log/mutation"
	}
	return u.mp() + "/log/treehead"
}
func (u *restUser) mp() string { return "/account/" + u.o.Acc + "/map/" + u.o.Name }

var suffix = map[string]string{"raw": "", "xjson": "/xjson", "redactable": "/xjson/redactable", "extra": "/extra"}

func leafRec(li, ex []byte, f int) Ev { return Ev{"li": hx(li), "ex": hx(ex), "fmt": f} }

// body makes a body of some form, with what it stands for.
func (u *restUser) body() (Ev, string) {
	s := u.s
	val := func() []byte { return u.vals[s.rng.Intn(len(u.vals))] }
	b := Ev{"bad": false, "doc": Doc{"bad"}, "x": leafRec(nil, nil, 0)}
	var text string
	switch s.rng.Intn(4) {
	case 0:
		b["form"], text = "raw", string(val())
	case 1, 2:
		b["form"] = []string{"xjson", "redactable"}[s.rng.Intn(2)]
		d := s.randDoc(3, false)
		if s.rng.Intn(3) > 0 {
			d = s.randObj(3, false)
		}
		text = d.text(s.rng)
		b["doc"] = d
		if s.rng.Intn(8) == 0 {
			text = []string{"", "{", text + "}", "{\"a\":}", "nope", "\x00" + text, "[1,]", "\"x"}[s.rng.Intn(8)]
			b["bad"], b["doc"] = true, docBad
		}
	case 3:
		b["form"] = "extra"
		li, ex := val(), []byte(s.randDoc(2, false).text(s.rng))
		f := s.rng.Intn(2)
		p := []string{}
		enc := func(x []byte) string { return quoted(s.rng, base64.StdEncoding.EncodeToString(x)) }
		if len(li) > 0 || s.rng.Intn(2) == 0 {
			p = append(p, `"leaf_input":`+enc(li))
		}
		if s.rng.Intn(3) == 0 {
			ex = nil
		} else {
			p = append(p, `"extra_data":`+enc(ex))
		}
		if f == 1 || s.rng.Intn(2) == 0 {
			p = append(p, `"format":`+strconv.Itoa(f))
		}
		s.rng.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		text = "{" + strings.Join(p, ", ") + "}"
		b["x"] = leafRec(li, ex, f)
		if s.rng.Intn(8) == 0 {
			text = []string{"", "null", "{", "[]", "{\"leaf_input\":3}", "{\"leaf_input\":\"!!\"}", "{\"extra_data\":\"a\"}", "3", " null "}[s.rng.Intn(9)]
			b["bad"] = true
		}
	}
	b["raw"] = hx([]byte(text))
	return b, text
}

func (u *restUser) key() (Ev, string) {
	s := u.s
	if s.rng.Intn(2) == 0 {
		k := u.keys[s.rng.Intn(len(u.keys))]
		return Ev{"form": "s", "text": k}, "/key/s/" + k
	}
	k := hx([]byte(u.keys[s.rng.Intn(len(u.keys))]))
	if s.rng.Intn(2) == 0 {
		k = hx(u.bin[s.rng.Intn(len(u.bin))])
	}
	if s.rng.Intn(20) == 0 {
		k += "0"
	}
	return Ev{"form": "h", "text": k}, "/key/h/" + k
}

func (u *restUser) do(method, path, body string, hdr map[string]string) (*rawRes, string) {
	h := map[string]string{"Authorization": "Key " + u.o.Key}
	for k, v := range hdr {
		h[k] = v
	}
	rs, c := u.w.raw(rawReq{method, path, body, h})
	if rs == nil {
		rs = &rawRes{}
	}
	return rs, c
}

// size and newest entry according to the service itself
func (u *restUser) size(lt string) int64 {
	h, c := guard(func() (*pb.LogTreeHashResponse, error) {
		return u.w.svc.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: u.o.log(lt)})
	})
	if c != "OK" {
		return -1
	}
	return h.TreeSize
}

func (u *restUser) at(lt string, i int64) *pb.LeafData {
	v, c := guard(func() (*pb.LogFetchEntriesResponse, error) {
		return u.w.svc.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: u.o.log(lt), First: i, Last: i + 1})
	})
	if c != "OK" || len(v.Values) != 1 {
		return &pb.LeafData{}
	}
	return v.Values[0]
}

func leafHashIn(b []byte) []byte {
	var x struct {
		LeafHash []byte `json:"leaf_hash"`
	}
	json.Unmarshal(b, &x)
	return x.LeafHash
}

func docOr(b []byte) Doc {
	var v any
	if json.Unmarshal(b, &v) != nil {
		return docBad
	}
	return docOf(v)
}

func (u *restUser) post() {
	lt := "log"
	if u.s.rng.Intn(15) == 0 {
		lt = []string{"mut", "head"}[u.s.rng.Intn(2)]
	}
	b, text := u.body()
	rs, c := u.do("POST", u.log(lt)+"/entry"+suffix[b["form"].(string)], text, nil)
	e := Ev{"ev": "post", "lt": lt, "b": b, "code": c, "lh": hx(leafHashIn(rs.body)), "size": u.size(lt)}
	st := &pb.LeafData{}
	if c == "OK" {
		p, pc := guard(func() (*pb.LogInclusionProofResponse, error) {
			return u.w.svc.LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: u.o.log(lt), MtlHash: leafHashIn(rs.body)})
		})
		if pc == "OK" {
			st = u.at(lt, p.LeafIndex)
		} else {
			e["code"] = "lost"
		}
	}
	e["st"], e["sdoc"] = entry("log", st), docOr(st.ExtraData)
	u.emit(e)
}

func (u *restUser) mutated(e Ev, rs *rawRes, c string) {
	n := u.size("mut")
	m := &pb.LeafData{}
	if c == "OK" && n > 0 {
		m = u.at("mut", n-1)
	}
	e["code"], e["lh"], e["size"], e["mt"] = c, hx(leafHashIn(rs.body)), n, entry("mut", m)
	e["sdoc"] = docBad
	if x := mutOf(m.ExtraData); x != nil {
		e["sdoc"] = docOr(x.Value.GetExtraData())
	}
	u.emit(e)
}

func (u *restUser) put() {
	s := u.s
	b, text := u.body()
	k, kp := u.key()
	e := Ev{"ev": "put", "b": b, "k": k, "upd": false, "prev": "", "prevok": true}
	hdr := map[string]string{}
	if s.rng.Intn(2) == 0 {
		e["upd"] = true
		var prev []byte
		switch s.rng.Intn(5) {
		case 0:
			prev = leafHash(nil)
		case 1:
			prev = leafHash(u.vals[s.rng.Intn(len(u.vals))])
		case 2: // (nothing: the header is there all the same)
		default:
			// what is there now
			key := []byte(k["text"].(string))
			if k["form"] == "h" {
				key, _ = hex.DecodeString(k["text"].(string))
			}
			v, _ := guard(func() (*pb.MapGetValueResponse, error) {
				return u.w.svc.MapGetValue(ctx, &pb.MapGetValueRequest{Map: u.o.mp(), Key: key})
			})
			prev = leafHash(v.GetValue().GetLeafInput())
		}
		t := hx(prev)
		if s.rng.Intn(3) == 0 {
			t = strings.ToUpper(t)
		}
		e["prev"] = hx(prev)
		if s.rng.Intn(10) == 0 {
			t = []string{"zz", "0", "0x12", "-", t + "0"}[s.rng.Intn(5)]
			e["prevok"] = false
		}
		hdr[[]string{"X-Previous-LeafHash", "X-Previous-Leafhash", "x-previous-leafhash"}[s.rng.Intn(3)]] = t
	}
	rs, c := u.do("PUT", u.mp()+kp+suffix[b["form"].(string)], text, hdr)
	u.mutated(e, rs, c)
}

func (u *restUser) del() {
	k, kp := u.key()
	rs, c := u.do("DELETE", u.mp()+kp, "", nil)
	u.mutated(Ev{"ev": "del", "k": k}, rs, c)
}

// shown is what a body shows of an entry.
func shown(lt, form string, body []byte) Ev {
	rv := Ev{"raw": hx(body), "x": leafRec(nil, nil, 0), "e": Ev{}}
	ld := &pb.LeafData{}
	switch form {
	case "xjson":
		ld.ExtraData = body
	case "extra":
		if json.Unmarshal(body, ld) != nil {
			rv["x"] = leafRec([]byte("unreadable"), nil, -1)
			ld = &pb.LeafData{}
		} else {
			rv["x"] = leafRec(ld.LeafInput, ld.ExtraData, int(ld.Format))
		}
	}
	rv["e"] = entry(lt, ld)
	return rv
}

func (u *restUser) num(n int64) int64 {
	switch u.s.rng.Intn(10) {
	case 0:
		return 0
	case 1:
		return n + 1 + u.s.rng.Int63n(3)
	case 2, 3:
		return n
	}
	return u.s.rng.Int63n(n + 1)
}

func (u *restUser) read() {
	s := u.s
	lt := []string{"log", "mut", "head"}[s.rng.Intn(3)]
	n := u.size(lt)
	if n < 0 {
		n = 0
	}
	form := []string{"raw", "xjson", "extra"}[s.rng.Intn(3)]
	type proof struct {
		LeafIndex int64    `json:"leaf_index"`
		FromSize  int64    `json:"from_size"`
		TreeSize  int64    `json:"tree_size"`
		RootHash  []byte   `json:"root_hash"`
		AuditPath [][]byte `json:"audit_path"`
		Mutation  struct {
			TreeSize int64  `json:"tree_size"`
			RootHash []byte `json:"root_hash"`
		} `json:"mutation_log"`
	}
	get := func(path string) (*proof, *rawRes, string) {
		rs, c := u.do("GET", path, "", nil)
		p := &proof{}
		if c == "OK" && json.Unmarshal(rs.body, p) != nil {
			c = "unreadable"
		}
		return p, rs, c
	}
	tree := func(k int64) (int64, string) {
		if k == 0 && s.rng.Intn(2) == 0 {
			return 0, "/tree/head"
		}
		return k, fmt.Sprint("/tree/", k)
	}
	switch s.rng.Intn(9) {
	case 0, 1:
		i := u.num(n)
		rs, c := u.do("GET", fmt.Sprint(u.log(lt), "/entry/", i, suffix[form]), "", nil)
		u.emit(Ev{"ev": "entry", "lt": lt, "n": i, "form": form, "code": c, "a": shown(lt, form, rs.body)})
	case 2:
		a, b := u.num(n), u.num(n)
		if a > b && s.rng.Intn(4) > 0 {
			a, b = b, a
		}
		rs, c := u.do("GET", fmt.Sprint(u.log(lt), "/entries/", a, "-", b, suffix[form]), "", nil)
		var x struct {
			Values []json.RawMessage `json:"values"`
		}
		if c == "OK" && json.Unmarshal(rs.body, &x) != nil {
			c = "unreadable"
		}
		v := []Ev{}
		for _, r := range x.Values {
			v = append(v, shown(lt, "extra", r))
		}
		u.emit(Ev{"ev": "entries", "lt": lt, "first": a, "last": b, "form": form, "code": c, "v": v})
	case 3:
		sz, p := tree(u.num(n))
		x, _, c := get(u.log(lt) + p)
		u.emit(Ev{"ev": "head", "lt": lt, "sz": sz, "code": c, "rs": x.TreeSize, "root": hx(x.RootHash)})
	case 4:
		sz, i := u.num(n), u.num(n)
		by := []string{"n", "h", "s"}[s.rng.Intn(3)]
		text := ""
		switch by {
		case "n":
			text = fmt.Sprint(i)
		case "h":
			text = hx(leafHash(u.at(lt, i).LeafInput))
			if s.rng.Intn(12) == 0 {
				text += "0"
			}
		case "s":
			text = string(u.vals[s.rng.Intn(4)])
		}
		mid := "/"
		if by != "n" {
			mid = "/" + by + "/"
		}
		x, _, c := get(fmt.Sprint(u.log(lt), "/tree/", sz, "/inclusion", mid, text))
		u.emit(Ev{"ev": "incl", "lt": lt, "sz": sz, "by": by, "n": i, "text": text, "code": c, "ri": x.LeafIndex, "rs": x.TreeSize, "path": hxs(x.AuditPath)})
	case 5:
		a, b := u.num(n), u.num(n)
		if a > b && s.rng.Intn(4) > 0 {
			a, b = b, a
		}
		x, _, c := get(fmt.Sprint(u.log(lt), "/tree/", b, "/consistency/", a))
		u.emit(Ev{"ev": "cons", "lt": lt, "sz": b, "from": a, "code": c, "rf": x.FromSize, "rs": x.TreeSize, "path": hxs(x.AuditPath)})
	case 6, 7:
		m := u.size("mut")
		sz, p := tree(u.num(m))
		k, kp := u.key()
		rs, c := u.do("GET", u.mp()+p+kp+suffix[form], "", nil)
		proof := [][2]any{}
		for _, h := range rs.hdr.Values("X-Verified-Proof") {
			for _, f := range strings.Split(h, ",") {
				x := strings.SplitN(strings.TrimSpace(f), "/", 2)
				i, err := strconv.Atoi(x[0])
				if err != nil || len(x) != 2 || i < 0 || i > 255 {
					c = "unreadable"
					continue
				}
				proof = append(proof, [2]any{i + 1, x[1]})
			}
		}
		rsz, err := strconv.Atoi(rs.hdr.Get("X-Verified-Treesize"))
		if err != nil {
			rsz = -1
		}
		u.emit(Ev{"ev": "value", "sz": sz, "k": k, "form": form, "code": c, "a": shown("log", form, rs.body), "rs": rsz, "proof": proof})
	case 8:
		sz, p := tree(u.num(u.size("mut")))
		x, _, c := get(u.mp() + p)
		u.emit(Ev{"ev": "mhead", "sz": sz, "code": c, "root": hx(x.RootHash), "ms": x.Mutation.TreeSize, "mroot": hx(x.Mutation.RootHash)})
	}
}

func scenRest(s *S) {
	for tr := 0; tr < s.q(15, 240); tr++ {
		o := Obj{Acc: []string{"77", "0", "007"}[tr%3], Name: []string{"obj", "a-b_c", "0", "mutation", "-"}[tr%5], Key: "secret"}
		wc := WC{Transport: "rest", Policy: onlyKey("secret"), Backend: []string{"memory", "bolt", "badger"}[tr%3]}
		u := &restUser{Tr: newTrace(), s: s, w: newWorld(wc), o: o}
		u.vals = [][]byte{[]byte("foo"), []byte("Bar-1"), []byte("x_y"), []byte("0"), {}, {0}, []byte("a\nb"), []byte("null"), []byte(`{"a":1}`), []byte("é"), {255, 254, 0, 1}, []byte("<html>"), []byte(" padded "), []byte("line\n"), []byte("line\r\n"), []byte("\n")}
		for i := 0; i < 6; i++ {
			u.vals = append(u.vals, s.bytes())
		}
		u.keys = []string{"foo", "k", "Key-1", "a_b", "0", "666f6f", strings.Repeat("long", 40)}
		u.bin = [][]byte{{0}, {255, 0, 47}, []byte("a/b"), []byte("%2f"), []byte("é"), leafHash(nil), make([]byte, 400), s.bytes(), s.bytes(), s.bytes()}
		crowded := tr%4 == 3
		if crowded {
			u.keys, u.bin = nil, nil
			for _, k := range s.crowd() {
				u.keys, u.bin = append(u.keys, string(k)), append(u.bin, k)
			}
		}
		for _, k := range u.keys {
			u.emit(Ev{"ev": "keys", "key": hx([]byte(k))})
		}
		for _, k := range u.bin {
			u.emit(Ev{"ev": "keys", "key": hx(k)})
		}
		for i := 0; i < 8; i++ {
			u.read() // nothing there yet
		}
		if crowded {
			for i := 0; i < 60; i++ {
				u.put()
			}
		}
		for i := 0; i < s.q(90, 140); i++ {
			switch s.rng.Intn(10) {
			case 0, 1:
				if u.size("log") < 40 {
					u.post()
				}
			case 2, 3, 4:
				u.put()
			case 5:
				u.del()
			}
			u.read()
			u.read()
			if s.rng.Intn(4) == 0 {
				u.auth()
			}
		}
		u.w.close()
	}
}

// onlyKey lets in those who have the key.
type onlyKey string

func (k onlyKey) VerifyAllowed(_ context.Context, _, key, _ string, _ pb.Permission) (*verifiable.AccessModifier, error) {
	if key != string(k) {
		return nil, verifiable.ErrNotAuthorized
	}
	return &verifiable.AccessModifier{FieldFilter: verifiable.AllFields}, nil
}

func (u *restUser) auth() {
	parts := [][]string{{"Key", "secret"}, {"Key", "Secret"}, {"Key"}, {"secret"}, {"Basic", "secret"}, {"Bearer", "secret"}, {"Key", "secret", "more"}, {"Key", "secre"}, {"Key", "secret2"}}[u.s.rng.Intn(9)]
	_, c := u.do("GET", u.mp()+"/tree/head", "", map[string]string{"Authorization": strings.Join(parts, " ")})
	u.emit(Ev{"ev": "auth", "parts": parts, "want": u.o.Key, "code": c})
}

// Part two: the clients.

type both struct {
	*pair
	transport string
}

// ask sends the same question through the transport and directly.
func (p *both) read(q *Q) {
	a, b := q.run(p.a.cl), q.run(p.a.svc)
	p.emit(Ev{"ev": "kind", "q": q.String(), "a": a.Code, "b": b.Code})
	if a.Code == "OK" || b.Code == "OK" {
		a.Proj, b.Proj = a.Full, b.Full
		p.same(q.String(), a, b)
	}
	x := q.run(p.b.svc) // the other service has been sent the same requests directly
	p.emit(Ev{"ev": "kind", "q": q.String(), "a": a.Code, "b": x.Code})
	if x.Code == "OK" {
		a = q.run(p.a.svc)
		p.same(q.String(), a, x)
	}
}

func (p *both) write(q *Q) { p.wrote(q, q.run(p.a.cl)) }

// wrote sends what the transport answered a to the other service.
func (p *both) wrote(q *Q, a A) {
	b := q.run(p.b.svc)
	missing := q.Op == "add" && q.Val == nil || q.Op == "set" && q.M.Action != "delete" && q.M.Value == nil
	if missing && p.transport != "grpc" && b.Code == "PermissionDenied" && a.Code != "OK" {
		return // two errors at once, either will do
	}
	p.emit(Ev{"ev": "kind", "q": q.String(), "a": a.Code, "b": b.Code})
	if a.Code == "OK" || b.Code == "OK" {
		p.same(q.String(), a, b)
	}
}

func (p *both) any(q *Q) {
	if q.write() {
		p.write(q)
	} else {
		p.read(q)
	}
}

// wideQ are requests of all shapes that the transport can carry.
func (s *S) wideQ(o Obj, n int64, transport string) *Q {
	q := s.randQ(o, n, 0.35)
	big := []int64{1 << 31, 1 << 40, 1<<63 - 1, 1<<63 - 2, 1 << 62}
	if transport == "grpc" {
		big = append(big, -1, -2, -1<<63, -1<<31)
	}
	switch s.rng.Intn(10) {
	case 0:
		if !q.write() && q.Op != "inclh" {
			q.A = big[s.rng.Intn(len(big))]
		}
	case 1:
		if !q.write() {
			q.B = big[s.rng.Intn(len(big))]
		}
	case 2:
		if q.Op == "inclh" {
			q.H = [][]byte{{}, {0}, leafHash(nil), make([]byte, 33), []byte("leaf-a")}[s.rng.Intn(5)]
		}
	}
	keys := [][]byte{{0}, {255, 254}, []byte("a/b"), []byte("é"), []byte(".."), []byte("%2f"), make([]byte, 700), leafHash(nil), []byte("?x=y#z")}
	if transport == "grpc" {
		keys = append(keys, []byte{})
	}
	k := keys[s.rng.Intn(len(keys))]
	if s.rng.Intn(3) == 0 {
		if q.Op == "get" {
			q.Key = k
		} else if q.Op == "set" {
			q.M.Key = k
		}
	}
	if q.Op == "set" && s.rng.Intn(3) == 0 && q.M.Action == "update" {
		q.M.PreviousLeafHash = [][]byte{nil, {1}, leafHash([]byte("v1")), make([]byte, 64)}[s.rng.Intn(4)]
	}
	val := q.Val
	if q.M != nil {
		val = q.M.Value
	}
	if val != nil {
		switch s.rng.Intn(8) {
		case 0:
			val.ExtraData = []byte(s.randObj(2, false).text(s.rng))
			val.LeafInput = objHash(val.ExtraData)
			val.Format = pb.DataFormat_JSON
		case 1:
			val.LeafInput = []byte{255, 0, 254, byte(s.rng.Intn(5))}
			val.ExtraData = []byte{0, 255, byte(s.rng.Intn(5))}
		case 2:
			val.ExtraData = []byte("<>&\u2028\"\\")
		case 3:
			if s.rng.Intn(8) == 0 {
				val.ExtraData = make([]byte, 200000)
				s.rng.Read(val.ExtraData)
			}
		case 4:
			if q.M != nil && s.rng.Intn(4) == 0 {
				q.M.Value = nil
			} else if q.M == nil && s.rng.Intn(4) == 0 {
				q.Val = nil
			}
		}
	}
	if transport == "grpc" && q.M != nil {
		switch s.rng.Intn(8) {
		case 0:
			q.M.PreviousLeafHash = leafHash(nil) // with any action
		case 1:
			q.M.Value = &pb.LeafData{LeafInput: []byte("odd")}
		case 2:
			q.M.Timestamp = "then"
		case 3:
			q.M.Action = []string{"", "SET", "erase", "nothing"}[s.rng.Intn(4)]
		}
	}
	if transport == "grpc" && q.Op == "inclh" && s.rng.Intn(3) == 0 {
		q.H = []byte{}
	}
	return q
}

func (s *S) transport(tr int, c WC, pol verifiable.AuthorizationOracle, apiKeys []string) {
	c.Policy = pol
	twc := WC{Policy: pol}
	p := &both{&pair{Tr: newTrace(), s: s, a: newWorld(c), b: newWorld(twc)}, strings.TrimPrefix(c.Transport, "tls")}
	c.Transport = p.transport
	p.emit(Ev{"ev": "begin"})
	names := []string{"obj", "a-b", "new", "0"}
	objs := []Obj{}
	for _, n := range names {
		for _, k := range []string{"log", "map"} {
			objs = append(objs, Obj{Acc: "77", Name: n, Kind: k})
		}
	}
	for i := 0; i < s.q(160, 300); i++ {
		o := objs[s.rng.Intn(len(objs))]
		if s.rng.Intn(2) == 0 {
			o = objs[s.rng.Intn(2)]
		}
		o.Key = apiKeys[s.rng.Intn(len(apiKeys))]
		x := o
		x.Key = apiKeys[0]
		p.any(s.wideQ(o, max(sizeOf(p.b.svc, x), 0), c.Transport))
		if c.Transport == "grpc" && s.rng.Intn(6) == 0 {
			q := s.malformed(o)
			a, b := q.run(p.a.cl), q.run(p.b.svc)
			p.emit(Ev{"ev": "kind", "q": fmt.Sprint("malformed ", q.A), "a": a.Code, "b": b.Code})
		}
		if s.rng.Intn(10) == 0 { // (mutation and tree head logs cannot be added to)
			q := s.randQ(Obj{Acc: "77", Name: o.Name, Kind: "log", Key: o.Key}, 3, 1)
			q.Lt = []string{"mut", "head"}[s.rng.Intn(2)]
			p.write(q)
		}
	}
	if tr%3 == 0 { // long audit paths
		o := Obj{Acc: "77", Name: "crowd", Kind: "map", Key: apiKeys[0]}
		ks := s.crowd()
		s.rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for i, k := range ks {
			p.write(&Q{Op: "set", O: o, M: &pb.MapMutation{Action: "set", Key: k, Value: &pb.LeafData{LeafInput: leaf(i)}}})
		}
		for _, k := range append(ks, []byte("absent")) {
			for _, n := range []int{0, len(ks), 1 + s.rng.Intn(len(ks))} {
				p.read(&Q{Op: "get", O: o, Key: k, A: int64(n)})
			}
		}
	}
	for _, o := range objs {
		o.Key = apiKeys[0]
		for _, q := range allQ(o, sizeOf(p.b.svc, o)) {
			p.read(q)
		}
	}
	for _, cl := range p.a.bad {
		for _, o := range objs[:2] {
			o.Key = apiKeys[0]
			for _, q := range []*Q{s.wideQ(o, 3, c.Transport), {Op: "head", O: o}} {
				p.emit(Ev{"ev": "bad", "q": q.String(), "code": q.run(cl).Code})
			}
		}
	}
	p.damaged(objs, apiKeys[0])
	p.crowded(apiKeys)
	p.a.close()
	p.b.close()
}

// crowded sends requests through the transport from many callers, each with objects of its own, and all reading shared ones.
func (p *both) crowded(apiKeys []string) {
	s := p.s
	shared := []Obj{{Acc: "77", Name: "obj", Kind: "log", Key: apiKeys[0]}, {Acc: "77", Name: "obj", Kind: "map", Key: apiKeys[0]}}
	n := int64(4)
	for g := 0; g < s.q(2, 4); g++ {
		const callers = 8
		qs := make([][]*Q, callers)
		as := make([][]A, callers)
		for c := range qs {
			for i := 0; i < s.q(30, 80); i++ {
				o := Obj{Acc: "77", Name: fmt.Sprint("own", c), Kind: []string{"log", "map"}[s.rng.Intn(2)], Key: apiKeys[s.rng.Intn(len(apiKeys))]}
				q := s.wideQ(o, n, p.transport)
				if s.rng.Intn(3) == 0 {
					q = s.wideQ(shared[s.rng.Intn(2)], n, p.transport)
					for q.write() {
						q = s.wideQ(shared[s.rng.Intn(2)], n, p.transport)
					}
				}
				qs[c] = append(qs[c], q)
			}
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for c := range qs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, q := range qs[c] {
					as[c] = append(as[c], q.run(p.a.cl))
				}
			}()
		}
		close(start)
		wg.Wait()
		for c := range qs {
			for i, q := range qs[c] {
				if q.write() {
					p.wrote(q, as[c][i])
					continue
				}
				b := q.run(p.b.svc)
				p.emit(Ev{"ev": "kind", "q": q.String(), "a": as[c][i].Code, "b": b.Code})
				if as[c][i].Code == "OK" {
					p.same(q.String(), as[c][i], b)
				}
			}
		}
	}
	// answers too large to leave at once
	large := Obj{Acc: "77", Name: "large", Kind: "log", Key: apiKeys[0]}
	big := []*Q{}
	for i := 0; i < 40; i++ {
		v := make([]byte, 2000+100*i)
		if i%10 == 9 {
			v = make([]byte, 60000)
		}
		s.rng.Read(v)
		p.write(&Q{Op: "add", O: large, Lt: "log", Val: &pb.LeafData{LeafInput: v}})
		big = append(big, &Q{Op: "fetch", O: large, Lt: "log", A: int64(i), B: int64(i + 1)})
	}
	for i := 0; i < s.q(7, 20); i++ {
		big = append(big, big[:40]...)
	}
	p.together(big, 16)
	// the same question, over and over, about what no longer changes
	o := Obj{Acc: "77", Name: "obj", Kind: "log", Key: apiKeys[0]}
	o2 := Obj{Acc: "77", Name: "obj", Kind: "map", Key: apiKeys[0]}
	qs := append(allQ(o, min(sizeOf(p.b.svc, o), 6)), allQ(o2, min(sizeOf(p.b.svc, o2), 6))...)
	s.rng.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	qs = qs[:min(len(qs), s.q(60, 200))]
	p.together(qs, 8)
}

// together asks the same questions from several callers at once, in different orders.
func (p *both) together(qs []*Q, callers int) {
	as := make([]A, callers*len(qs))
	var wg sync.WaitGroup
	for c := 0; c < callers; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range qs {
				j := (i + c*len(qs)/callers) % len(qs)
				as[c*len(qs)+j] = qs[j].run(p.a.cl)
			}
		}()
	}
	wg.Wait()
	seen := map[string]bool{}
	want := make([]A, len(qs))
	for i := range qs {
		want[i] = qs[i].run(p.a.svc)
	}
	for i, a := range as {
		q, b := qs[i%len(qs)].String(), want[i%len(qs)]
		if x := q + a.Code + a.Full; seen[x] {
			continue
		} else {
			seen[x] = true
		}
		p.emit(Ev{"ev": "kind", "q": q, "a": a.Code, "b": b.Code})
		if a.Code == "OK" {
			a.Proj, b.Proj = a.Full, b.Full
			p.same(q, a, b)
		}
	}
}

// lossy damages replies on their way.
type lossy struct {
	http.RoundTripper
	rng   *rand.Rand
	mu    sync.Mutex
	every int
}

type cutReader struct{ io.Reader }

func (cutReader) Close() error { return nil }
func (c cutReader) Read(b []byte) (int, error) {
	n, err := c.Reader.Read(b)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func (t *lossy) RoundTrip(q *http.Request) (*http.Response, error) {
	rs, err := t.RoundTripper.RoundTrip(q)
	if err != nil {
		return rs, err
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.rng.Intn(t.every) > 0 {
		return rs, nil
	}
	switch t.rng.Intn(6) {
	case 4: // not what was said, but all there
		b, err := io.ReadAll(rs.Body)
		rs.Body.Close()
		must(err)
		x := [][]byte{nil, []byte("<html>busy</html>"), []byte("[]"), []byte("\"\""), []byte("7"), b[:len(b)/2], append(b, b...), append(b, '}')}[t.rng.Intn(8)]
		rs.Body, rs.ContentLength = io.NopCloser(bytes.NewReader(x)), int64(len(x))
		rs.Header.Del("Content-Length")
	case 5:
		h := []string{"X-Verified-Treesize", "X-Verified-Proof"}[t.rng.Intn(2)]
		v := []string{"zz", "-1/00ff", "300/00ff", "99999999999999999999/00", "1/zz", "/", "1", "-2/", "1/00/00"}[t.rng.Intn(9)]
		if h == "X-Verified-Proof" {
			rs.Header.Add(h, v)
		} else if v != "1" {
			rs.Header.Set(h, v)
		}
	case 0:
		rs.Body.Close()
		return nil, io.ErrUnexpectedEOF
	case 1:
		rs.StatusCode = []int{201, 202, 203, 204, 206, 300, 304, 402, 403, 409, 429, 500, 502, 503, 504}[t.rng.Intn(15)]
		rs.Status = fmt.Sprint(rs.StatusCode, " something")
	default:
		b, err := io.ReadAll(rs.Body)
		rs.Body.Close()
		must(err)
		n := t.rng.Intn(len(b) + 1)
		if t.rng.Intn(3) == 0 {
			n = max(0, len(b)-1-t.rng.Intn(3))
		}
		rs.Body = cutReader{bytes.NewReader(b[:n])}
	}
	return rs, nil
}

// damaged asks through a connection that fails now and then.
func (p *both) damaged(objs []Obj, key string) {
	if p.a.base == "" {
		return
	}
	s := p.s
	cl, err := (&httprest.Client{BaseURL: p.a.base, HTTPClient: &http.Client{Transport: &lossy{RoundTripper: &http.Transport{MaxIdleConnsPerHost: 4}, rng: rand.New(rand.NewSource(s.rng.Int63())), every: 2}}}).Dial()
	must(err)
	for _, o := range objs {
		o.Key = key
		for _, q := range allQ(o, sizeOf(p.b.svc, o)) {
			if s.rng.Intn(2) == 0 {
				continue
			}
			if q.Op == "inclh" && q.H == nil {
				continue // asks twice
			}
			a, b := q.run(cl), q.run(p.a.svc)
			p.emit(Ev{"ev": "lossy", "q": q.String(), "code": a.Code, "a": a.Code + " " + short(a.Full), "b": b.Code + " " + short(b.Full)})
		}
	}
}

func scenTransports(s *S) {
	static := &policy.Static{Policy: []*pb.ResourceAccount{{Id: "77", Policy: []*pb.AccessPolicy{
		{NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}, AllowedFields: []string{"*"}, ApiKey: "root"},
		{NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_MAP_GET_VALUE, pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_ENTRY}, AllowedFields: []string{"a", "name", "x", "key"}, ApiKey: "some"},
		{NameMatch: "a*", Permissions: []pb.Permission{pb.Permission_PERM_LOG_PROVE_INCLUSION, pb.Permission_PERM_LOG_RAW_ADD, pb.Permission_PERM_MAP_SET_VALUE}, AllowedFields: []string{"*"}, ApiKey: "some"},
	}}}}
	tr := 0
	for _, tp := range []string{"rest", "grpc", "chain", "tlsrest", "tlsgrpc"} {
		n := s.q(3, 36)
		if strings.HasPrefix(tp, "tls") {
			n = s.q(1, 6)
		}
		for i := 0; i < n; i++ {
			c := WC{Transport: tp, Backend: []string{"memory", "bolt", "badger"}[tr%3]}
			switch i % 3 {
			case 0:
				s.transport(tr, c, nil, []string{"", "k", "a:b/c?d"})
			case 1:
				s.transport(tr, c, static, []string{"root", "root", "some", "none", ""})
			case 2:
				s.transport(tr, c, keyed{}, []string{"ok", "ok", "denied"})
			}
			tr++
		}
	}
}
