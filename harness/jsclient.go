package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"sync"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

//go:embed driver.js
var driverJS []byte

// jsc is the JavaScript client in a process of its own. Its requests are answered by the REST server in front of a service.
type jsc struct {
	mu   sync.Mutex
	in   *bufio.Writer
	out  *bufio.Reader
	cmd  *exec.Cmd
	rng  *rand.Rand
	keep int                             // one of so many calls to servers that lie is made
	hs   map[any]http.Handler            // of services
	edit func(*http.Request, *httpReply) // what happens to answers on the way
}

type httpReply struct {
	Status int                 `json:"status"`
	H      map[string][]string `json:"h"`
	B      string              `json:"b"`
}

// theJS, when set, takes the place of the Go client.
var theJS *jsc

func useJS(s *S, keep int) *jsc {
	f := scratch + "/driver.js"
	must(os.WriteFile(f, driverJS, 0o600))
	cmd := exec.Command("node", "--stack-size=4000", f)
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	must(err)
	out, err := cmd.StdoutPipe()
	must(err)
	must(cmd.Start())
	j := &jsc{in: bufio.NewWriter(in), out: bufio.NewReaderSize(out, 1<<16), cmd: cmd, rng: s.rng, keep: keep, hs: map[any]http.Handler{}}
	w := httptest.NewRecorder()
	httprest.CreateRESTHandler(&liar{}, nil, nil).ServeHTTP(w, httptest.NewRequest("GET", "/continusec.js", nil))
	j.write(w.Body.String())
	theJS = j
	return j
}

func (j *jsc) write(v any) {
	b, err := json.Marshal(v)
	must(err)
	j.in.Write(append(b, '\n'))
	must(j.in.Flush())
}

type jsCall [2]json.RawMessage

type jsDone struct {
	Calls   []jsCall        `json:"calls"`
	Thrown  []string        `json:"thrown"`
	Waiting bool            `json:"waiting"`
	Extra   json.RawMessage `json:"extra"`
	Now     float64         `json:"now"`
}

// op has the client do something, with a server in front of svc. honest: the server does as it should, so that the client may not fail to call back.
func (j *jsc) op(svc any, honest bool, o Ev, res any) (code, reason string, d jsDone) {
	j.mu.Lock()
	defer j.mu.Unlock()
	h := j.hs[svc]
	if h == nil {
		if len(j.hs) > 200 {
			j.hs = map[any]http.Handler{}
		}
		h = httprest.CreateRESTHandler(svc.(service), nil, nil)
		j.hs[svc] = h
	}
	j.write(o)
	for {
		l, err := j.out.ReadBytes('\n')
		if err == io.EOF {
			j.cmd.Wait()
			must(fmt.Errorf("the JavaScript client ended: %v", j.cmd.ProcessState))
		}
		must(err)
		var m struct {
			HTTP *struct {
				M, U, B string
				H       map[string]string
			}
			Done *jsDone
		}
		must(json.Unmarshal(l, &m))
		if m.Done != nil {
			d = *m.Done
			break
		}
		j.write(j.serve(h, m.HTTP.M, m.HTTP.U, m.HTTP.H, m.HTTP.B))
	}
	count("js_calls", 1)
	switch {
	case len(d.Calls) == 1:
		must(json.Unmarshal(d.Calls[0][0], &code))
		if code == "FAIL" {
			must(json.Unmarshal(d.Calls[0][1], &reason))
		} else if res != nil {
			must(json.Unmarshal(d.Calls[0][1], res))
		}
	case len(d.Calls) > 1:
		code = "PANIC" // called back more than once
	case d.Waiting:
		code = "WAIT"
	case len(d.Thrown) > 0 && !honest:
		code = "FAIL"
	default:
		code = "HANG" // never called back
	}
	if (code == "PANIC" || code == "HANG") && os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, code, o, d.Thrown, len(d.Calls))
	}
	return code, reason, d
}

func (j *jsc) serve(h http.Handler, m, u string, hdr map[string]string, body string) (rv *httpReply) {
	defer func() {
		if p := recover(); p != nil {
			rv = &httpReply{} // as a broken connection
		}
	}()
	b, err := hex.DecodeString(body)
	must(err)
	q, err := http.NewRequest(m, u, bytes.NewReader(b))
	if err != nil {
		return &httpReply{Status: 400}
	}
	q.RequestURI = q.URL.RequestURI()
	for k, v := range hdr {
		q.Header.Set(k, v)
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, q)
	rv = &httpReply{Status: w.Code, H: map[string][]string{}, B: hex.EncodeToString(w.Body.Bytes())}
	for k, v := range w.Header() {
		rv.H[lower(k)] = v
	}
	if j.edit != nil {
		j.edit(q, rv)
	}
	return rv
}

func lower(s string) string { return string(bytes.ToLower([]byte(s))) }

// skips tells whether a call to a server that lies is left out
func (j *jsc) skips(honest int) bool { return honest == 0 && j.keep > 1 && j.rng.Intn(j.keep) > 0 }

const maxJS = 1 << 53

func jsSafe(hs ...*lth) bool {
	for _, h := range hs {
		if h.GetTreeSize() >= maxJS || h.GetTreeSize() <= -maxJS {
			return false
		}
	}
	return true
}

func jsHead(h *lth) any {
	if h == nil {
		return nil
	}
	return Ev{"n": h.TreeSize, "r": hx(h.RootHash)}
}

type jsHeadRec struct {
	N float64
	R string
}

func (h *jsHeadRec) lth() *lth {
	if h == nil {
		return nil
	}
	r, err := hex.DecodeString(h.R)
	must(err)
	if len(r) == 0 {
		r = nil
	}
	return &lth{TreeSize: int64(h.N), RootHash: r}
}

func jsPath(p [][]byte) []string {
	rv := []string{}
	for _, x := range p {
		rv = append(rv, hx(x))
	}
	return rv
}

func (j *jsc) obj(op string, l *pb.LogRef, o Ev) Ev {
	o["op"], o["acc"], o["key"], o["name"], o["lt"] = op, "77", l.GetAccount().GetApiKey(), l.GetName(), ""
	switch l.LogType {
	case pb.LogType_STRUCT_TYPE_MUTATION_LOG:
		o["lt"] = "mut"
	case pb.LogType_STRUCT_TYPE_TREEHEAD_LOG:
		o["lt"] = "head"
	}
	return o
}

func (j *jsc) mobj(op string, m *verifiable.Map, o Ev) Ev {
	o["op"], o["acc"], o["key"], o["name"] = op, "77", m.Map.GetAccount().GetApiKey(), m.Map.GetName()
	return o
}

func (j *jsc) vhead(log *verifiable.Log, held *lth, latest bool, want int64, honest int) (*lth, string) {
	var r *jsHeadRec
	c, _, _ := j.op(log.Service, honest != 0, j.obj("vhead", log.Log, Ev{"held": jsHead(held), "latest": latest, "want": want}), &r)
	return r.lth(), c
}

func (j *jsc) vcons(log *verifiable.Log, a, b *lth, honest int) string {
	c, _, _ := j.op(log.Service, honest != 0, j.obj("vcons", log.Log, Ev{"a": jsHead(a), "b": jsHead(b)}), nil)
	return c
}

func (j *jsc) vincl(log *verifiable.Log, head *lth, leaf []byte, honest int) string {
	c, _, _ := j.op(log.Service, honest != 0, j.obj("vincl", log.Log, Ev{"head": jsHead(head), "leaf": hx(leaf)}), nil)
	return c
}

func (j *jsc) vsupp(log *verifiable.Log, held *lth, p *pb.LogInclusionProofResponse, leaf []byte, honest int) (*lth, string) {
	var r *jsHeadRec
	c, _, _ := j.op(log.Service, honest != 0, j.obj("vsupp", log.Log, Ev{"held": jsHead(held), "leaf": hx(leaf), "pn": p.TreeSize, "i": p.LeafIndex, "path": jsPath(p.AuditPath)}), &r)
	return r.lth(), c
}

func (j *jsc) audit(log *verifiable.Log, prev, head *lth, stop int, honest int) (cbs [][2]any, code string) {
	c, _, d := j.op(log.Service, honest != 0, j.obj("audit", log.Log, Ev{"prev": jsHead(prev), "head": jsHead(head), "stop": stop, "f": "raw"}), nil)
	cbs = [][2]any{}
	if len(d.Extra) > 0 && string(d.Extra) != "null" {
		must(json.Unmarshal(d.Extra, &cbs))
	}
	return cbs, c
}

type jsStateRec struct {
	R    string
	M, T *jsHeadRec
}

func jsState(m *verifiable.MapTreeState) any {
	if m == nil {
		return nil
	}
	return Ev{"r": hx(m.MapTreeHead.GetRootHash()), "m": jsHead(m.MapTreeHead.GetMutationLog()), "t": jsHead(m.TreeHeadLogTreeHead)}
}

func (r *jsStateRec) state() *verifiable.MapTreeState {
	if r == nil {
		return nil
	}
	b, err := hex.DecodeString(r.R)
	must(err)
	return &verifiable.MapTreeState{MapTreeHead: &mth_{RootHash: b, MutationLog: r.M.lth()}, TreeHeadLogTreeHead: r.T.lth()}
}

func (j *jsc) vstate(mp *verifiable.Map, held *verifiable.MapTreeState, latest bool, want int64, honest int) (*verifiable.MapTreeState, string) {
	var r *jsStateRec
	c, _, _ := j.op(mp.Service, honest != 0, j.mobj("vstate", mp, Ev{"held": jsState(held), "latest": latest, "want": want}), &r)
	return r.state(), c
}

type jsEntry struct {
	LH, D, U, Own string
	I             int
}

func (j *jsc) vget(mp *verifiable.Map, st *verifiable.MapTreeState, key []byte, honest int) (string, string) {
	var r jsEntry
	c, _, _ := j.op(mp.Service, honest != 0, j.mobj("vget", mp, Ev{"held": jsState(st), "k": hx(key), "f": "raw"}), &r)
	return r.D, c
}
