package main

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	scenarios["C21"] = scenAccess
	scenarios["C22"] = scenPolicy
	scenarios["C23"] = scenFilter
}

// Grant is what an access policy grants.
type Grant struct {
	Mode           string // only, except, all
	Acc, Key, Name string
	Perm           int
}

// VerifyAllowed implements the policy.
func (g *Grant) VerifyAllowed(_ context.Context, account, apiKey, objectName string, p pb.Permission) (*verifiable.AccessModifier, error) {
	hit := account == g.Acc && apiKey == g.Key && objectName == g.Name && int(p) == g.Perm
	if g.Mode == "all" || (g.Mode == "only" && hit) || (g.Mode == "except" && !hit) {
		return &verifiable.AccessModifier{FieldFilter: verifiable.AllFields}, nil
	}
	return nil, verifiable.ErrNotAuthorized
}

type oracle struct{ g *Grant }

func (o *oracle) VerifyAllowed(c context.Context, a, k, n string, p pb.Permission) (*verifiable.AccessModifier, error) {
	return o.g.VerifyAllowed(c, a, k, n, p)
}

func asJSON(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return strings.ReplaceAll(string(b), `""`, "null") // no bytes are no bytes
}

// accSizes are size and index of a request, possible, too large or never possible.
var accSizes = [][2]int64{{0, 0}, {2, 1}, {99, 50}, {-1, -1}, {2, -3}, {-2, 1}, {1, 2}, {1<<63 - 1, 1 << 62}, {-1 << 63, 0}}
var accFrom = []int64{1, 1, 1, -1, 0, 1, 2, 1<<63 - 1, -1 << 63}

// do carries out one operation and gives its answer.
func do(svc service, o Obj, op, lt string, variant int) (string, string) {
	ans := func(v any, c string) (string, string) {
		if c != "OK" {
			if rv := asJSON(v); rv != "null" {
				return c, rv
			}
			return c, ""
		}
		return c, asJSON(v)
	}
	sizes := accSizes[variant]
	switch op {
	case "add":
		v, c := guard(func() (*pb.LogAddEntryResponse, error) {
			q := &pb.LogAddEntryRequest{Log: o.log(lt), Value: &pb.LeafData{LeafInput: []byte(fmt.Sprintf("new-%d", variant))}}
			if variant == 1 {
				q.Value = nil
			}
			return svc.LogAddEntry(ctx, q)
		})
		return ans(v, c)
	case "fetch":
		v, c := guard(func() (*pb.LogFetchEntriesResponse, error) {
			return svc.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: o.log(lt), First: sizes[1], Last: sizes[0]})
		})
		return ans(v, c)
	case "head":
		v, c := guard(func() (*pb.LogTreeHashResponse, error) {
			return svc.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: o.log(lt), TreeSize: sizes[0]})
		})
		return ans(v, c)
	case "cons":
		v, c := guard(func() (*pb.LogConsistencyProofResponse, error) {
			return svc.LogConsistencyProof(ctx, &pb.LogConsistencyProofRequest{Log: o.log(lt), FromSize: accFrom[variant], TreeSize: sizes[0]})
		})
		return ans(v, c)
	case "inclidx":
		v, c := guard(func() (*pb.LogInclusionProofResponse, error) {
			return svc.LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: o.log(lt), LeafIndex: sizes[1], TreeSize: sizes[0]})
		})
		return ans(v, c)
	case "inclhash":
		v, c := guard(func() (*pb.LogInclusionProofResponse, error) {
			return svc.LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: o.log(lt), MtlHash: leafHash([]byte(fmt.Sprintf("leaf-%d", variant%3*7+1))), TreeSize: sizes[0]})
		})
		return ans(v, c)
	case "set", "delete", "update":
		m := &pb.MapMutation{Action: op, Key: []byte(fmt.Sprintf("key-%d", variant))}
		if op != "delete" {
			m.Value = &pb.LeafData{LeafInput: []byte("forbidden")}
		}
		if op == "update" {
			m.PreviousLeafHash = leafHash(nil)
		}
		switch variant {
		case 1:
			m.Value = nil
			if op == "delete" {
				m.Action = "erase"
			}
		case 2:
			m = nil
		}
		v, c := guard(func() (*pb.MapSetValueResponse, error) {
			return svc.MapSetValue(ctx, &pb.MapSetValueRequest{Map: o.mp(), Mutation: m})
		})
		if c == "OK" { // the leaf hash depends on the time
			return c, fmt.Sprint(len(v.LeafHash))
		}
		return ans(v, c)
	case "get":
		v, c := guard(func() (*pb.MapGetValueResponse, error) {
			return svc.MapGetValue(ctx, &pb.MapGetValueRequest{Map: o.mp(), Key: []byte(fmt.Sprintf("key-%d", variant%4)), TreeSize: sizes[0]})
		})
		return ans(v, c)
	case "mhead":
		v, c := guard(func() (*pb.MapTreeHashResponse, error) {
			return svc.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: o.mp(), TreeSize: sizes[0]})
		})
		return ans(v, c)
	}
	panic(op)
}

var logOps = []string{"add", "fetch", "head", "cons", "inclidx", "inclhash"}
var mapOps = []string{"set", "delete", "update", "get", "mhead"}

// everything is what can be read of some objects.
func everything(svc service, os ...Obj) string {
	rv := ""
	for _, o := range os {
		for _, lt := range []string{"log", "mut", "head"} {
			if (lt == "log") != (o.Kind == "log") {
				continue
			}
			for _, op := range []string{"fetch", "head"} {
				c, a := do(svc, o, op, lt, 0)
				rv += c + a
			}
		}
		if o.Kind == "map" {
			for v := 0; v < 3; v++ {
				g, c := guard(func() (*pb.MapGetValueResponse, error) {
					return svc.MapGetValue(ctx, &pb.MapGetValueRequest{Map: o.mp(), Key: []byte(fmt.Sprintf("key-%d", v))})
				})
				rv += c + asJSON(g)
			}
			c, a := do(svc, o, "mhead", "", 0)
			rv += c + a
		}
	}
	return hx(leafHash([]byte(rv)))
}

func scenAccess(s *S) {
	for _, tr := range []string{"direct", "rest", "grpc"} {
		or := &oracle{&Grant{Mode: "all"}}
		w := newWorld(WC{Policy: or, Transport: tr})
		lg := Obj{Acc: "77", Name: "obj", Kind: "log", Key: "key"}
		mp := Obj{Acc: "77", Name: "obj", Kind: "map", Key: "key"}
		for i := 0; i < 3; i++ {
			_, c := guard(func() (*pb.LogAddEntryResponse, error) {
				return w.svc.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: lg.log("log"), Value: &pb.LeafData{LeafInput: []byte(fmt.Sprintf("leaf-%d", i))}})
			})
			if c != "OK" {
				must(fmt.Errorf("set up: %s", c))
			}
			_, c = guard(func() (*pb.MapSetValueResponse, error) {
				return w.svc.MapSetValue(ctx, &pb.MapSetValueRequest{Map: mp.mp(), Mutation: &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprintf("key-%d", i)), Value: &pb.LeafData{LeafInput: []byte(fmt.Sprintf("leaf-%d", i))}}})
			})
			if c != "OK" {
				must(fmt.Errorf("set up: %s", c))
			}
		}
		watched := []Obj{lg, mp}
		for _, kind := range []string{"log", "map"} {
			for _, nm := range []string{"obj", "other"} {
				t := newTrace()
				for _, key := range []string{"key", "", "*"} {
					if tr != "direct" && (key == "*" || nm == "other" && !s.thorough) {
						continue
					}
					o := Obj{Acc: "77", Name: nm, Kind: kind, Key: key}
					x := o
					x.Key = "key"
					seen := append([]Obj{x}, watched...)
					lts := []string{"log"}
					ops := logOps
					if kind == "map" {
						lts = []string{"mut", "head", ""}
					}
					for _, lt := range lts {
						if lt == "" {
							ops = mapOps
						}
						for _, op := range ops {
							variants := len(accSizes)
							write := op == "add" || op == "set" || op == "delete" || op == "update"
							if write { // what can be carried out, and what never can
								variants = 3
								if op == "add" {
									variants = 2
								}
								if tr == "rest" {
									variants = 1
								}
							}
							for v := 0; v < variants; v++ {
								if tr == "rest" && (accSizes[v][0] < 0 || accSizes[v][1] < 0 || accFrom[v] < 0) {
									continue // no such address
								}
								grants := []*Grant{{Mode: "all", Perm: 1}}
								for p := 0; p < 16; p++ {
									if key == "key" || p >= 8 {
										grants = append(grants, &Grant{"only", o.Acc, o.Key, o.Name, p})
									}
									if p >= 8 && (s.thorough || key == "key" && v == 0) {
										grants = append(grants, &Grant{"except", o.Acc, o.Key, o.Name, p},
											&Grant{"only", "78", o.Key, o.Name, p}, &Grant{"only", o.Acc, "key2", o.Name, p}, &Grant{"only", o.Acc, o.Key, "obj2", p},
											&Grant{"only", o.Name, o.Key, o.Acc, p}, &Grant{"only", o.Key, o.Acc, o.Name, p})
									}
								}
								for _, g := range grants {
									if v >= 3 && !s.thorough && s.rng.Intn(3) > 0 {
										continue
									}
									or.g = &Grant{Mode: "all"}
									before := everything(w.svc, seen...)
									refcode, ref := "OK", ""
									if !write {
										refcode, ref = do(w.svc, o, op, lt, v)
									} else if v > 0 {
										refcode = "InvalidArgument"
									}
									or.g = g
									c, a := do(w.cl, o, op, lt, v)
									if write && c == "OK" {
										ref = a
									}
									or.g = &Grant{Mode: "all"}
									t.emit(Ev{"ev": "acc", "op": op, "lt": lt, "tr": tr, "mode": g.Mode, "variant": v,
										"grant": Ev{"acc": g.Acc, "key": g.Key, "name": g.Name, "perm": g.Perm}, "req": Ev{"acc": o.Acc, "key": o.Key, "name": o.Name},
										"code": c, "ans": a, "refcode": refcode, "ref": ref, "before": before, "after": everything(w.svc, seen...)})
								}
							}
						}
					}
				}
			}
		}
		w.close()
	}
}

// codes gives the characters of a string.
func codes(x string) []int {
	rv := []int{}
	for _, r := range x {
		rv = append(rv, int(r))
	}
	return rv
}

// polReq asks a static policy.
func polReq(p *policy.Static, acc, key, name string, perm int) Ev {
	am, c := guard(func() (*verifiable.AccessModifier, error) {
		return p.VerifyAllowed(ctx, acc, key, name, pb.Permission(perm))
	})
	fs := []string{}
	switch c {
	case "OK":
		if am.FieldFilter != "" {
			fs = strings.Split(am.FieldFilter, ",")
		}
	case "PANIC", "HANG", "NIL":
	default:
		c = "denied"
	}
	return Ev{"acc": acc, "key": key, "name": codes(name), "perm": perm, "code": c, "fields": fs}
}

func allStrings(alphabet []string, n int) []string {
	rv := []string{""}
	last := rv
	for i := 0; i < n; i++ {
		var next []string
		for _, x := range last {
			for _, a := range alphabet {
				next = append(next, x+a)
			}
		}
		rv = append(rv, next...)
		last = next
	}
	return rv
}

func scenPolicy(s *S) {
	// patterns
	names := allStrings([]string{"a", "b", "/", "*"}, 3)
	names = append(names, "-", "]", "[", "\\", "é", "aé", "abab", "aab/b", "^", "^a", "a-b", "m", "z", "á")
	pats := allStrings([]string{"a", "*", "?", "[", "]", "^", "-", "\\"}, s.q(3, 4))
	for i := 0; i < s.q(600, 6000); i++ {
		p := ""
		for j := s.rng.Intn(8); j >= 0; j-- {
			p += []string{"a", "b", "*", "?", "[", "]", "^", "-", "\\", "/", "é", "[a-z]", "[^a]", "m", "**"}[s.rng.Intn(15)]
		}
		pats = append(pats, p)
	}
	nc := [][]int{}
	for _, n := range names {
		nc = append(nc, codes(n))
	}
	var t *Tr
	for _, p := range pats {
		if t == nil || t.n >= 200 {
			t = newTrace()
		}
		pol := &policy.Static{Policy: []*pb.ResourceAccount{{Id: "x", Policy: []*pb.AccessPolicy{{ApiKey: "*", NameMatch: p, AllowedFields: []string{"*"}, Permissions: []pb.Permission{1}}}}}}
		m := []int{}
		for i, n := range names {
			if r := polReq(pol, "x", "k", n, 9); r["code"] == "OK" {
				m = append(m, i+1)
			} else if r["code"] != "denied" {
				m = append(m, -1)
			}
		}
		t.emit(Ev{"ev": "glob", "p": codes(p), "ss": nc, "m": m})
	}
	// policies
	t = newTrace()
	pick := func(x ...string) string { return x[s.rng.Intn(len(x))] }
	perms := func() []pb.Permission {
		rv := []pb.Permission{}
		for i := s.rng.Intn(4); i > 0; i-- {
			rv = append(rv, pb.Permission([]int{0, 1, 8, 9, 10, 11, 12, 13, 14, 15}[s.rng.Intn(10)]))
		}
		return rv
	}
	fields := func() []string {
		return [][]string{{"*"}, {}, {"f"}, {"g"}, {"f", "g"}, {"g", "f"}, {"*", "f"}, {"f", "*"}, {"h"}, {"F"}, {"f1", "f2", "f3"}}[s.rng.Intn(11)]
	}
	for i := 0; i < s.q(1500, 20000); i++ {
		if t.n >= 300 {
			t = newTrace()
		}
		pol := &policy.Static{}
		cfg := []Ev{}
		for a := s.rng.Intn(4); a > 0; a-- {
			ra := &pb.ResourceAccount{Id: pick("x", "x", "y", "", "*")}
			rules := []Ev{}
			for b := s.rng.Intn(5); b > 0; b-- {
				r := &pb.AccessPolicy{ApiKey: pick("", "*", "k", "k", "j", "**", "K"), NameMatch: pick("*", "*", "a", "a*", "?", "[ab]", "[", "b", "", "a/*", "*/*", "\\*", "A"), AllowedFields: fields(), Permissions: perms()}
				ra.Policy = append(ra.Policy, r)
				pp := []int{}
				for _, p := range r.Permissions {
					pp = append(pp, int(p))
				}
				rules = append(rules, Ev{"key": r.ApiKey, "match": codes(r.NameMatch), "fields": append([]string{}, r.AllowedFields...), "perms": pp})
			}
			pol.Policy = append(pol.Policy, ra)
			cfg = append(cfg, Ev{"id": ra.Id, "rules": rules})
		}
		reqs := []Ev{}
		for j := 0; j < 25; j++ {
			reqs = append(reqs, polReq(pol, pick("x", "x", "x", "y", "", "z", "*", "X"), pick("k", "k", "k", "j", "", "*", "**", "K", "kk"), pick("a", "a", "b", "ab", "", "a/b", "*", "[", "A"), []int{0, 1, 8, 9, 10, 11, 12, 13, 14, 15}[s.rng.Intn(10)]))
		}
		t.emit(Ev{"ev": "pol", "cfg": cfg, "reqs": reqs})
	}
}

// val is a value as the specification of filtering sees it.
func valRec(v *pb.LeafData) Ev {
	return Ev{"li": hx(v.GetLeafInput()), "ex": hx(v.GetExtraData()), "fmt": int(v.GetFormat()), "data": parseDocOrBad(v.GetExtraData())}
}

var noVal = Ev{"li": "", "ex": "", "fmt": 0, "data": docBad}

func scenFilter(s *S) {
	visible := [][]string{{"a"}, {"b", "bb"}, {"a", "b", "bb"}, {}, {"nosuch"}, {"name", "value", "é", "timestamp"}, {"extra_data"}}
	st := &policy.Static{}
	ra := &pb.ResourceAccount{Id: "acc"}
	for i, v := range visible {
		ra.Policy = append(ra.Policy, &pb.AccessPolicy{ApiKey: fmt.Sprintf("r%d", i), NameMatch: "*", AllowedFields: v, Permissions: []pb.Permission{1}})
	}
	ra.Policy = append(ra.Policy, &pb.AccessPolicy{ApiKey: "*", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{1}})
	st.Policy = append(st.Policy, ra)

	docs := []*pb.LeafData{}
	mk := func(d Doc) {
		src := []byte(d.text(s.rng))
		v, c := guard(func() (*pb.LeafData, error) { return verifiable.CreateJSONLeafData(src) })
		if c != "OK" {
			v = &pb.LeafData{LeafInput: leafHash(src), ExtraData: src, Format: pb.DataFormat_JSON}
		}
		docs = append(docs, v)
		if len(docs)%7 == 0 {
			if rv, c := guard(func() (*pb.LeafData, error) { return verifiable.CreateRedactableJSONLeafData(src) }); c == "OK" {
				docs = append(docs, rv)
			}
		}
	}
	hasEmpty := func(d Doc) bool {
		for _, f := range d.fields() {
			if f.Name == "" {
				return true
			}
		}
		return false
	}
	for _, p := range s.plan {
		if d := planDoc(p); d[0] == "o" && (s.thorough || s.rng.Intn(4) == 0) || s.rng.Intn(20) == 0 {
			mk(d)
		}
	}
	for i := 0; i < s.q(60, 400); i++ {
		if d := s.randObj(3, true); !hasEmpty(d) {
			mk(d)
		}
	}
	obj := []byte(`{"a":1,"b":"secret"}`)
	docs = append(docs, &pb.LeafData{}, &pb.LeafData{LeafInput: []byte("x")}, &pb.LeafData{LeafInput: []byte("y"), ExtraData: []byte("not json")},
		&pb.LeafData{LeafInput: []byte("u"), ExtraData: obj}, &pb.LeafData{ExtraData: obj}, &pb.LeafData{ExtraData: obj, Format: pb.DataFormat_JSON},
		&pb.LeafData{LeafInput: []byte("w"), ExtraData: obj, Format: pb.DataFormat_JSON}, &pb.LeafData{LeafInput: []byte("n"), ExtraData: []byte("{bad"), Format: pb.DataFormat_JSON},
		&pb.LeafData{LeafInput: []byte("m"), Format: pb.DataFormat_JSON}, &pb.LeafData{Format: pb.DataFormat_JSON})

	trs := []string{"direct"}
	if s.thorough {
		trs = []string{"direct", "grpc"}
	}
	for _, tr := range trs {
		// each document in a log and map of its own if it is not of the common kind, so that it does not get in the way of the others
		for from := 0; from < len(docs); {
			to := from + 25
			if docs[from].Format != pb.DataFormat_JSON || len(docs[from].LeafInput) < 32 {
				to = from + 1
			} else {
				for i := from; i < to && i < len(docs); i++ {
					if docs[i].Format != pb.DataFormat_JSON || len(docs[i].LeafInput) < 32 {
						to = i
					}
				}
			}
			if to > len(docs) {
				to = len(docs)
			}
			s.filterRun(st, visible, docs[from:to], tr)
			from = to
		}
		s.filterRun(st, visible, docs[len(docs)-9:], tr)
	}
}

func (s *S) filterRun(pol *policy.Static, visible [][]string, docs []*pb.LeafData, tr string) {
	w := newWorld(WC{Policy: pol, Transport: tr})
	defer w.close()
	t := newTrace()
	full := Obj{Acc: "acc", Name: "o", Key: "anything"}
	for i, d := range docs {
		guard(func() (*pb.LogAddEntryResponse, error) {
			return w.svc.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: full.log("log"), Value: d})
		})
		set := func(m *pb.MapMutation) {
			guard(func() (*pb.MapSetValueResponse, error) {
				return w.svc.MapSetValue(ctx, &pb.MapSetValueRequest{Map: full.mp(), Mutation: m})
			})
		}
		k := []byte(fmt.Sprintf("k%d", i))
		switch i % 3 {
		case 0:
			set(&pb.MapMutation{Action: "update", Key: k, Value: d, PreviousLeafHash: leafHash(nil)})
		default:
			set(&pb.MapMutation{Action: "set", Key: k, Value: d})
		}
		if i%5 == 1 {
			set(&pb.MapMutation{Action: "delete", Key: k})
			set(&pb.MapMutation{Action: "set", Key: append(k, 'x'), Value: d})
		}
	}
	fetch := func(o Obj, lt string, a, b int64) (*pb.LogFetchEntriesResponse, string) {
		return guard(func() (*pb.LogFetchEntriesResponse, error) {
			return w.cl.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: o.log(lt), First: a, Last: b})
		})
	}
	get := func(o Obj, k []byte, n int64) (*pb.MapGetValueResponse, string) {
		return guard(func() (*pb.MapGetValueResponse, error) {
			return w.cl.MapGetValue(ctx, &pb.MapGetValueRequest{Map: o.mp(), Key: k, TreeSize: n})
		})
	}
	entryRec := func(e *pb.LeafData) Ev {
		m := mutRec(mutOf(e.GetExtraData()))
		delete(m, "vex")
		delete(m, "vfmt")
		m["li"] = hx(e.GetLeafInput())
		return m
	}
	lf, lc := fetch(full, "log", 0, 0)
	mf, mc := fetch(full, "mut", 0, 0)
	if lc != "OK" || mc != "OK" {
		t.emit(Ev{"ev": "same", "a": lc + mc, "b": "OKOK"})
		return
	}
	for vi := -1; vi < len(visible); vi++ {
		if vi >= 3 && !s.thorough && s.rng.Intn(3) > 0 {
			continue
		}
		r := Obj{Acc: "acc", Name: "o", Key: "r" + fmt.Sprint(vi)}
		vis := []string{}
		if vi >= 0 {
			for _, v := range visible[vi] {
				vis = append(vis, hx([]byte(v)))
			}
		}
		base := func(ev string) Ev { return Ev{"ev": ev, "all": vi < 0, "visible": vis} }
		for i, f := range lf.Values {
			g, c := fetch(r, "log", int64(i), int64(i+1))
			e := base("filt")
			e["full"], e["code"], e["got"] = valRec(f), c, noVal
			if len(g.GetValues()) == 1 {
				e["got"] = valRec(g.Values[0])
			} else if c == "OK" {
				e["code"] = "COUNT"
			}
			t.emit(e)
		}
		for i, f := range mf.Values {
			g, c := fetch(r, "mut", int64(i), int64(i+1))
			e := base("filtmut")
			e["full"], e["fullm"], e["code"], e["got"], e["gotm"] = valRec(mutOf(f.ExtraData).GetValue()), entryRec(f), c, noVal, Ev{}
			if len(g.GetValues()) == 1 {
				e["got"], e["gotm"] = valRec(mutOf(g.Values[0].ExtraData).GetValue()), entryRec(g.Values[0])
			} else if c == "OK" {
				e["code"] = "COUNT"
			}
			t.emit(e)
		}
		for i := 0; i < len(docs)+1; i++ {
			for _, sfx := range []string{"", "x"} {
				k := []byte(fmt.Sprintf("k%d%s", i, sfx))
				sizes := []int64{0, int64(len(mf.Values)), 1 + s.rng.Int63n(int64(len(mf.Values)))}
				for _, n := range sizes[:2+s.rng.Intn(2)] {
					f, fc := get(full, k, n)
					g, c := get(r, k, n)
					if fc != "OK" {
						t.emit(Ev{"ev": "same", "a": fc, "b": "OK"})
						continue
					}
					e := base("filt")
					e["full"], e["code"], e["got"] = valRec(f.Value), c, noVal
					if c == "OK" {
						e["got"] = valRec(g.Value)
					}
					t.emit(e)
					if c == "OK" {
						t.emit(Ev{"ev": "same", "a": asJSON(f.AuditPath) + fmt.Sprint(f.TreeSize), "b": asJSON(g.AuditPath) + fmt.Sprint(g.TreeSize)})
						mh, mc := guard(func() (*pb.MapTreeHashResponse, error) {
							return w.cl.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: r.mp(), TreeSize: n})
						})
						v := "FAIL"
						if mc == "OK" {
							v = guardErr(func() error { return verifiable.VerifyMapInclusionProof(g, k, mh) })
						}
						t.emit(Ev{"ev": "same", "a": v, "b": "OK"})
					}
				}
			}
		}
		// ranges
		for _, lt := range []string{"log", "mut"} {
			vals := lf.Values
			if lt == "mut" {
				vals = mf.Values
			}
			valOf := func(e *pb.LeafData) Ev {
				if lt == "mut" {
					return valRec(mutOf(e.GetExtraData()).GetValue())
				}
				return valRec(e)
			}
			n := int64(len(vals))
			for _, ab := range [][2]int64{{0, 0}, {0, n}, {n / 2, n}, {0, (n + 1) / 2}} {
				if ab[1] != 0 && ab[0] >= ab[1] {
					continue
				}
				g, c := fetch(r, lt, ab[0], ab[1])
				e := base("range")
				fs, gs := []Ev{}, []Ev{}
				last := ab[1]
				if last == 0 {
					last = n
				}
				for _, f := range vals[ab[0]:last] {
					fs = append(fs, valOf(f))
				}
				for _, x := range g.GetValues() {
					gs = append(gs, valOf(x))
				}
				e["fulls"], e["gots"], e["code"] = fs, gs, c
				t.emit(e)
			}
		}
		// proofs and roots
		for _, lt := range []string{"log", "mut", "head"} {
			for v := 0; v < 2; v++ {
				for _, op := range []string{"head", "cons", "inclidx", "inclhash"} {
					ac, a := do(w.cl, full, op, lt, v)
					bc, b := do(w.cl, r, op, lt, v)
					t.emit(Ev{"ev": "same", "a": ac + a, "b": bc + b})
				}
			}
		}
		ac, a := do(w.cl, full, "fetch", "head", 0)
		bc, b := do(w.cl, r, "fetch", "head", 0)
		t.emit(Ev{"ev": "same", "a": ac + a, "b": bc + b})
		ac, a = do(w.cl, full, "mhead", "", 0)
		bc, b = do(w.cl, r, "mhead", "", 0)
		t.emit(Ev{"ev": "same", "a": ac + a, "b": bc + b})
	}
}
