package main

import (
	"bufio"
	"bytes"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	scenarios["C26"] = scenBad
}

// rawReq is a request as sent to the REST server.
type rawReq struct {
	method, path, body string
	hdr                map[string]string
}

func (q rawReq) String() string {
	return fmt.Sprint(q.method, " ", q.path, " ", clip(q.body), " ", q.hdr)
}

type rawRes struct {
	status int
	hdr    http.Header
	body   []byte
}

var rawClient = &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 8}}

func (w *World) raw(q rawReq) (*rawRes, string) {
	rq, err := http.NewRequest(q.method, w.base+"/v2"+q.path, strings.NewReader(q.body))
	must(err)
	for k, v := range q.hdr {
		rq.Header.Set(k, v)
	}
	rs, err := rawClient.Do(rq)
	if err != nil {
		return nil, "CRASH"
	}
	defer rs.Body.Close()
	var b bytes.Buffer
	if _, err := b.ReadFrom(rs.Body); err != nil {
		return nil, "CRASH"
	}
	c := map[int]string{200: "OK", 400: "InvalidArgument", 401: "PermissionDenied", 404: "NotFound"}[rs.StatusCode]
	if c == "" {
		c = fmt.Sprint("Status", rs.StatusCode)
	}
	return &rawRes{rs.StatusCode, rs.Header, b.Bytes()}, c
}

// cut sends the beginning of a request only.
func (w *World) cut(q rawReq, n int, chunked bool) string {
	c, err := net.Dial("tcp", strings.TrimPrefix(w.base, "http://"))
	must(err)
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	head := q.method + " /v2" + q.path + " HTTP/1.1\r\nHost: x\r\n"
	for k, v := range q.hdr {
		head += k + ": " + v + "\r\n"
	}
	if chunked {
		head += "Transfer-Encoding: chunked\r\n\r\n"
		if n > 0 {
			head += fmt.Sprintf("%x\r\n%s\r\n", n, q.body[:n])
		}
		head += fmt.Sprintf("%x\r\n", len(q.body)-n)
	} else {
		head += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(q.body), q.body[:n])
	}
	_, err = c.Write([]byte(head))
	must(err)
	must(c.(*net.TCPConn).CloseWrite())
	rs, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return "Closed"
	}
	rs.Body.Close()
	if rs.StatusCode == 200 {
		return "OK"
	}
	return fmt.Sprint("Status", rs.StatusCode)
}

// cutBodies are requests whose beginnings would be good ones too.
func (s *S) cutBodies(o Obj) []rawReq {
	lg, mp := "/account/"+o.Acc+"/log/"+o.Name, "/account/"+o.Acc+"/map/"+o.Name
	rv := []rawReq{}
	for sfx, bs := range map[string][]string{"": {"value", strings.Repeat("long ", 2000)}, "/extra": {`{"leaf_input":"QQ==","extra_data":"Qg=="}  `}, "/xjson": {`{"a":1}  `, "123456"}, "/xjson/redactable": {`{"a":[1,2]}  `}} {
		for _, b := range bs {
			rv = append(rv, rawReq{"POST", lg + "/entry" + sfx, b, nil}, rawReq{"PUT", mp + "/key/s/k" + sfx, b, nil}, rawReq{"PUT", mp + "/key/h/6b" + sfx, b, nil},
				rawReq{"PUT", mp + "/key/s/k" + sfx, b, map[string]string{"X-Previous-LeafHash": hx(leafHash(nil))}})
		}
	}
	return rv
}

// badRaw are requests that the REST server has to refuse.
func badRaw(o Obj) []rawReq {
	lg, mp := "/account/"+o.Acc+"/log/"+o.Name, "/account/"+o.Acc+"/map/"+o.Name
	rv := []rawReq{}
	for _, b := range []string{"null", "", "{", "[]", "3", "\"x\"", "{\"leaf_input\":3}", "{\"leaf_input\":\"!\"}", "{\"extra_data\":\"a\"}", "{\"format\":\"x\"}", " null ", "{\"leaf_input\":\"QQ==\"", "nul"} {
		rv = append(rv, rawReq{"POST", lg + "/entry/extra", b, nil}, rawReq{"PUT", mp + "/key/s/k/extra", b, nil}, rawReq{"PUT", mp + "/key/h/6b/extra", b, nil},
			rawReq{"PUT", mp + "/key/s/k/extra", b, map[string]string{"X-Previous-LeafHash": hx(leafHash(nil))}})
	}
	for _, b := range []string{"", "{", "{\"a\":}", "nope", "{\"a\":1}}", "\x00"} {
		rv = append(rv, rawReq{"POST", lg + "/entry/xjson", b, nil}, rawReq{"PUT", mp + "/key/s/k/xjson", b, nil},
			rawReq{"POST", lg + "/entry/xjson/redactable", b, nil}, rawReq{"PUT", mp + "/key/s/k/xjson/redactable", b, nil})
	}
	for _, h := range []string{"zz", "0", "0x12", "abc", "-"} {
		rv = append(rv, rawReq{"PUT", mp + "/key/s/k", "v", map[string]string{"X-Previous-LeafHash": h}}, rawReq{"PUT", mp + "/key/s/k/xjson", "{}", map[string]string{"X-Previous-LeafHash": h}})
	}
	for _, sfx := range []string{"", "/xjson", "/xjson/redactable", "/extra"} {
		rv = append(rv, rawReq{"POST", mp + "/log/mutation/entry" + sfx, "{}", nil}, rawReq{"POST", mp + "/log/treehead/entry" + sfx, "{}", nil},
			rawReq{"PUT", mp + "/key/h/6" + sfx, "{}", nil}, rawReq{"PUT", mp + "/key/h/" + sfx, "{}", nil}, rawReq{"PUT", mp + "/key/h/zz" + sfx, "{}", nil})
	}
	for _, n := range []string{"9223372036854775808", "99999999999999999999999", "-1", "1.5", "0x1", "x", ""} {
		for _, l := range []string{lg, mp + "/log/mutation", mp + "/log/treehead"} {
			rv = append(rv, rawReq{"GET", l + "/entry/" + n, "", nil}, rawReq{"GET", l + "/entries/0-" + n, "", nil}, rawReq{"GET", l + "/entries/" + n + "-1", "", nil}, rawReq{"GET", l + "/tree/" + n, "", nil},
				rawReq{"GET", l + "/tree/" + n + "/inclusion/0", "", nil}, rawReq{"GET", l + "/tree/0/inclusion/" + n, "", nil}, rawReq{"GET", l + "/tree/" + n + "/inclusion/h/00", "", nil}, rawReq{"GET", l + "/tree/0/inclusion/h/0", "", nil},
				rawReq{"GET", l + "/tree/" + n + "/consistency/1", "", nil}, rawReq{"GET", l + "/tree/0/consistency/" + n, "", nil})
		}
		rv = append(rv, rawReq{"GET", mp + "/tree/" + n, "", nil}, rawReq{"GET", mp + "/tree/" + n + "/key/s/k", "", nil}, rawReq{"GET", mp + "/tree/" + n + "/key/h/6b/extra", "", nil})
	}
	rv = append(rv, rawReq{"DELETE", mp + "/key/h/6", "", nil}, rawReq{"DELETE", mp + "/key/h/", "", nil}, rawReq{"DELETE", lg, "", nil}, rawReq{"PUT", lg + "/entry", "x", nil}, rawReq{"POST", mp + "/key/s/k", "x", nil},
		rawReq{"POST", "/account/x/log/" + o.Name + "/entry", "v", nil}, rawReq{"POST", "/account/" + o.Acc + "/log/A/entry", "v", nil}, rawReq{"PUT", "/account//map/m/key/s/k", "v", nil}, rawReq{"PATCH", lg + "/entry", "v", nil})
	return rv
}

// pair is a service that receives everything and one that never receives what is refused.
type pair struct {
	*Tr
	s    *S
	a, b *World
	objs []Obj
	fl   int
	bat  bool
}

func (p *pair) bad(q string, c string) { p.emit(Ev{"ev": "bad", "q": q, "code": c}) }

// good sends a request to both; the time in mutations differs, so what depends on it is left out.
func (p *pair) good(q *Q) {
	a := q.run(p.a.cl)
	if q.write() {
		p.emit(Ev{"ev": "write", "o": q.O.id(), "code": a.Code})
	} else {
		p.ask(q, a)
	}
	p.same(q.String(), a, q.run(p.b.cl))
	if q.write() && p.bat {
		p.fl++
		tag := fmt.Sprint(p.fl)
		ok := flush(p.a.cl, q.O, tag)
		p.emit(Ev{"ev": "same", "a": ok, "b": flush(p.b.cl, q.O, tag)})
		p.emit(Ev{"ev": "write", "o": q.O.id(), "code": "OK"})
	}
}

// look asks a few things about every object.
func (p *pair) look(n int) {
	for i := 0; i < n; i++ {
		o := p.objs[p.s.rng.Intn(len(p.objs))]
		p.good(p.s.randQ(o, 4, 0))
	}
}

func (p *pair) lookAll() {
	for _, o := range p.objs {
		n := sizeOf(p.b.svc, o)
		for _, q := range allQ(o, n) {
			p.good(q)
		}
	}
}

func scenBad(s *S) {
	objs := []Obj{{Acc: "77", Name: "obj", Kind: "log", Key: "k"}, {Acc: "77", Name: "obj", Kind: "map", Key: "k"}, {Acc: "77", Name: "new", Kind: "log", Key: "k"}, {Acc: "77", Name: "new", Kind: "map", Key: "k"}}
	ms := time.Millisecond
	cfgs := []WC{{}, {Backend: "bolt"}, {Backend: "badger"}, {Transport: "rest"}, {Transport: "grpc"},
		{Mutator: "batch", BatchSize: 3, BufferSize: 8, Timeout: 3 * ms}, {Mutator: "batch", BatchSize: 1, BufferSize: 1, Timeout: 3 * ms, Transport: "rest"},
		{Mutator: "batch", BatchSize: 50, BufferSize: 8, Timeout: 5 * ms, Backend: "bolt", Transport: "grpc"}}
	for _, c := range cfgs {
		twc := c
		twc.Backend, twc.Mutator = "memory", "instant"
		p := &pair{Tr: newTrace(), s: s, a: newWorld(c), b: newWorld(twc), objs: objs, bat: c.Mutator == "batch"}
		p.emit(Ev{"ev": "begin"})
		p.look(6)
		// nothing there yet
		for _, o := range objs[:2] {
			for _, q := range malformedAll(o) {
				p.bad(fmt.Sprint(q.A), q.run(p.a.cl).Code)
				if s.rng.Intn(4) == 0 {
					p.look(1)
				}
			}
		}
		p.lookAll()
		for i := 0; i < s.q(4, 8); i++ {
			for _, o := range objs[:2] {
				p.good(s.randQ(o, 4, 1))
			}
		}
		for _, o := range objs {
			for _, q := range malformedAll(o) {
				p.bad(fmt.Sprint(q.A), q.run(p.a.cl).Code)
				switch s.rng.Intn(8) {
				case 0:
					p.good(s.randQ(o, 4, 0.5))
				case 1, 2:
					p.look(2)
				}
			}
		}
		if c.Transport == "rest" {
			for _, o := range objs[:2] {
				for _, q := range badRaw(o) {
					_, code := p.a.raw(q)
					p.bad(q.String(), code)
					if s.rng.Intn(8) == 0 {
						p.look(1)
					}
				}
			}
		}
		if c.Transport == "rest" {
			for _, o := range objs {
				for _, q := range s.cutBodies(o) {
					for _, n := range []int{0, 1, len(q.body) - 2, len(q.body) - 1} {
						p.bad("cut "+q.String(), p.a.cut(q, n, s.rng.Intn(2) == 0))
						if s.rng.Intn(8) == 0 {
							p.look(1)
						}
					}
				}
			}
		}
		p.lookAll()
		// all at once
		var wg sync.WaitGroup
		var mu sync.Mutex
		codes := []string{}
		stop := make(chan bool)
		for g := 0; g < 2; g++ {
			wg.Add(1)
			qs := malformedAll(objs[g])
			go func() {
				defer wg.Done()
				for i := 0; ; i++ {
					select {
					case <-stop:
						return
					default:
					}
					code := qs[i%len(qs)].run(p.a.cl).Code
					mu.Lock()
					if i < 200 {
						codes = append(codes, code)
					}
					mu.Unlock()
				}
			}()
		}
		for i := 0; i < s.q(16, 60); i++ {
			p.good(s.randQ(objs[s.rng.Intn(4)], 4, 0.6))
		}
		close(stop)
		wg.Wait()
		for _, x := range codes {
			p.bad("concurrent", x)
		}
		p.lookAll()
		// a service without a mutator, on the same store
		ro, err := (&verifiable.Service{AccessPolicy: policy.Open, Reader: p.a.st}).Create()
		must(err)
		saved := p.a.cl
		p.a.cl = ro
		if c.Transport == "" || c.Transport == "direct" {
			for i := 0; i < 20; i++ {
				q := s.randQ(objs[s.rng.Intn(4)], 4, 1)
				p.bad(q.String(), q.run(ro).Code)
				q = s.malformed(objs[s.rng.Intn(4)])
				p.bad(q.String(), q.run(ro).Code)
				p.look(1)
			}
			p.lookAll()
		}
		p.a.cl = saved
		for i := 0; i < 6; i++ {
			p.good(s.randQ(objs[s.rng.Intn(4)], 4, 0.7))
		}
		p.lookAll()
		p.a.close()
		p.b.close()
	}
}
