package main

import (
	"bytes"
	"encoding/json"
	"math"
	"strings"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() { scenarios["C28"] = scenJSON }

type bin struct{ b []byte }

func (t *Tr) jmk(how string, in Doc, f func() (*pb.LeafData, error), src []byte) *pb.LeafData {
	v, c := guard(f)
	t.emit(Ev{"ev": "mk", "how": how, "in": in, "code": c, "li": hx(v.GetLeafInput()), "fmt": int(v.GetFormat()),
		"data": parseDocOrBad(v.GetExtraData()), "same": bytes.Equal(v.GetExtraData(), src)})
	return v
}

func parseDocOrBad(b []byte) Doc {
	if len(b) == 0 {
		return docBad
	}
	return parseDoc(b)
}

func (t *Tr) jval(data, li []byte) {
	e := &pb.LeafData{LeafInput: li, ExtraData: data, Format: pb.DataFormat(t.n % 2)}
	t.emit(Ev{"ev": "val", "data": parseDocOrBad(data), "li": hx(li), "verdict": guardErr(func() error { return verifiable.ValidateJSONLeafData(ctx, e) })})
}

func (t *Tr) jshed(in []byte) {
	v, c := guard(func() (*bin, error) { b, err := verifiable.ShedRedactedJSONFields(in); return &bin{b}, err })
	out := docBad
	if v != nil {
		out = parseDocOrBad(v.b)
	}
	t.emit(Ev{"ev": "shed", "in": parseDocOrBad(in), "code": c, "out": out})
}

// mutRec is a mutation as the specification sees it.
func mutRec(m *pb.MapMutation) Ev {
	return Ev{"ts": hx([]byte(m.GetTimestamp())), "act": hx([]byte(m.GetAction())), "key": hx(m.GetKey()), "hv": m.GetValue() != nil, "vli": hx(m.GetValue().GetLeafInput()),
		"vex": hx(m.GetValue().GetExtraData()), "vfmt": int(m.GetValue().GetFormat()), "prev": hx(m.GetPreviousLeafHash())}
}

func mutOf(data []byte) *pb.MapMutation {
	var m *pb.MapMutation
	if json.Unmarshal(data, &m) != nil {
		return nil
	}
	return m
}

func (t *Tr) jmutval(data, li []byte) {
	m := mutOf(data)
	e := &pb.LeafData{LeafInput: li, ExtraData: data, Format: pb.DataFormat(t.n % 2)}
	t.emit(Ev{"ev": "mutval", "bad": m == nil, "m": mutRec(m), "li": hx(li), "verdict": guardErr(func() error { return verifiable.ValidateJSONLeafDataFromMutation(e) })})
}

func flipAt(b []byte, i int) []byte {
	rv := append([]byte{}, b...)
	if len(rv) > 0 {
		rv[i%len(rv)] ^= 1
	}
	return rv
}

// alterations of a document: one field changed, dropped, added, renamed; of lists one element
func (s *S) alter(d Doc) []Doc {
	rv := []Doc{dList(d), dObj(Field{"a", d}), Doc{"z"}, dStr("")}
	switch d[0] {
	case "o":
		fs := d.fields()
		for i := range fs {
			cp := func() []Field { return append([]Field{}, fs...) }
			x := cp()
			rv = append(rv, dObj(append(x[:i], x[i+1:]...)...))
			x = cp()
			x[i].D = s.randDoc(1, true)
			rv = append(rv, dObj(x...))
			x = cp()
			x[i].Name += "x"
			rv = append(rv, dObj(x...))
			x = cp()
			x[i].D = dHash(leafHash([]byte("other")))
			rv = append(rv, dObj(x...))
			for _, y := range s.alter(fs[i].D)[3:] {
				x = cp()
				x[i].D = y
				rv = append(rv, dObj(x...))
			}
		}
		rv = append(rv, dObj(append(append([]Field{}, fs...), Field{"new", Doc{"z"}})...))
		// the values of two fields change places
		if len(fs) > 1 {
			x := append([]Field{}, fs...)
			x[0].D, x[1].D = x[1].D, x[0].D
			rv = append(rv, dObj(x...))
		}
	case "l":
		ds := d.items()
		rv = append(rv, dList(append(append([]Doc{}, ds...), Doc{"z"})...))
		if len(ds) > 0 {
			rv = append(rv, dList(ds[1:]...))
			x := append([]Doc{}, ds...)
			x[0], x[len(x)-1] = x[len(x)-1], x[0]
			rv = append(rv, dList(x...))
		}
	case "s":
		rv = append(rv, Doc{"s", d[1].(string) + "20"})
	case "f":
		rv = append(rv, Doc{"f", d[1], 1 + num(d[2]), d[3]}, dStr(d.text(nil)))
	case "g":
		b := []byte(d[2].(string))
		b[len(b)/2] ^= 1
		rv = append(rv, Doc{"g", d[1], string(b), d[3]}, dStr(d.text(nil)), Doc{"g", !d[1].(bool), d[2], d[3]})
	case "t", "F":
		rv = append(rv, dStr(d.text(nil)), dNum(1))
	case "z":
		rv = append(rv, dStr("null"), dNum(0))
	}
	return rv
}

// subsets gives all subsets of few names, or some of many
func (s *S) subsets(fs []Field) []map[string]bool {
	rv := []map[string]bool{}
	n := 1 << uint(len(fs))
	for i := 0; i < n; i++ {
		m := map[string]bool{}
		for j, f := range fs {
			if i>>uint(j)&1 == 1 {
				m[f.Name] = true
			}
		}
		rv = append(rv, m)
	}
	if len(rv) > 16 {
		s.rng.Shuffle(len(rv), func(i, j int) { rv[i], rv[j] = rv[j], rv[i] })
		rv = rv[:16]
	}
	return rv
}

// goValue is the value of a document as Go code would have it
func goValue(d Doc) any {
	switch d[0] {
	case "s", "r":
		var x string
		must(json.Unmarshal([]byte(d.text(nil)), &x))
		return x
	case "f", "g":
		f := d.number()
		if f == math.Trunc(f) && math.Abs(f) < 1e9 {
			return int(f)
		}
		return f
	case "t", "F":
		return d[0] == "t"
	case "l":
		rv := []any{}
		for _, x := range d.items() {
			rv = append(rv, goValue(x))
		}
		return rv
	case "o":
		rv := map[string]any{}
		for _, x := range d.fields() {
			rv[x.Name] = goValue(x.D)
		}
		return rv
	}
	return nil
}

func (s *S) jsonDoc(t *Tr, d Doc, deep bool) {
	src := []byte(d.text(s.rng))
	p := t.jmk("plain", d, func() (*pb.LeafData, error) { return verifiable.CreateJSONLeafData(src) }, src)
	t.jmk("object", d, func() (*pb.LeafData, error) { return verifiable.CreateJSONLeafDataFromObject(goValue(d)) }, src)
	t.jval(p.GetExtraData(), p.GetLeafInput())
	rd := t.jmk("redactable", d, func() (*pb.LeafData, error) { return verifiable.CreateRedactableJSONLeafData(src) }, src)
	t.jval(rd.GetExtraData(), rd.GetLeafInput())
	t.jshed(rd.GetExtraData())
	t.jshed(src)
	if rd == nil || p == nil {
		return
	}
	t.jval(rd.GetExtraData(), p.GetLeafInput())
	rt := parseDoc(rd.ExtraData)
	// redaction, of the plain and the redactable form
	if d[0] == "o" {
		for _, m := range s.subsets(d.fields()) {
			t.jval([]byte(d.redact(m).text(s.rng)), p.LeafInput)
			r := []byte(rt.redact(m).text(s.rng))
			t.jval(r, rd.LeafInput)
			t.jshed(r)
			if deep { // inner fields too
				fs := rt.redact(m).fields()
				for i, f := range fs {
					if it := f.D.items(); len(it) == 2 && it[1][0] == "o" {
						for _, m2 := range s.subsets(it[1].fields()) {
							g := append([]Field{}, fs...)
							g[i].D = dList(it[0], it[1].redact(m2))
							x := []byte(dObj(g...).text(s.rng))
							t.jval(x, rd.LeafInput)
							t.jshed(x)
						}
					}
				}
			}
		}
	}
	if !deep {
		return
	}
	for _, x := range s.alter(d) {
		t.jval([]byte(x.text(s.rng)), p.LeafInput)
	}
	for _, x := range s.alter(rt) {
		t.jval([]byte(x.text(s.rng)), rd.LeafInput)
	}
	for _, li := range [][]byte{flipAt(p.LeafInput, s.rng.Intn(32)), p.LeafInput[:31], append(append([]byte{}, p.LeafInput...), 0), {}, nil, leafHash(p.LeafInput)} {
		t.jval(p.ExtraData, li)
	}
}

func (s *S) jsonMut(t *Tr, m *pb.MapMutation, alts bool) {
	v, c := guard(func() (*pb.LeafData, error) { return verifiable.CreateJSONLeafDataFromMutation(m) })
	t.emit(Ev{"ev": "mutmk", "m": mutRec(m), "code": c, "li": hx(v.GetLeafInput()), "fmt": int(v.GetFormat()), "back": mutRec(mutOf(v.GetExtraData()))})
	if v == nil {
		return
	}
	t.jmutval(v.ExtraData, v.LeafInput)
	t.jval(v.ExtraData, v.LeafInput)
	if !alts {
		return
	}
	for _, li := range [][]byte{flipAt(v.LeafInput, s.rng.Intn(32)), v.LeafInput[:31], {}, nil} {
		t.jmutval(v.ExtraData, li)
	}
	try := func(f func(*pb.MapMutation)) {
		x := mutOf(v.ExtraData)
		f(x)
		b, err := json.Marshal(x)
		must(err)
		t.jmutval(b, v.LeafInput)
	}
	try(func(x *pb.MapMutation) { x.Action += "x" })
	try(func(x *pb.MapMutation) { x.Action = "" })
	try(func(x *pb.MapMutation) { x.Timestamp += "0" })
	try(func(x *pb.MapMutation) { x.Timestamp = "" })
	try(func(x *pb.MapMutation) { x.Key = append(x.Key, 0) })
	try(func(x *pb.MapMutation) { x.Key = nil })
	try(func(x *pb.MapMutation) { x.Key = flipAt(x.Key, 0) })
	try(func(x *pb.MapMutation) { x.PreviousLeafHash = append(x.PreviousLeafHash, 0) })
	try(func(x *pb.MapMutation) { x.PreviousLeafHash = nil })
	try(func(x *pb.MapMutation) { x.PreviousLeafHash, x.Key = x.Key, x.PreviousLeafHash })
	try(func(x *pb.MapMutation) { x.Value = nil })
	try(func(x *pb.MapMutation) { x.Value = &pb.LeafData{} })
	if m.Value != nil {
		try(func(x *pb.MapMutation) { x.Value.LeafInput = append(x.Value.LeafInput, 1) })
		try(func(x *pb.MapMutation) { x.Value.LeafInput = flipAt(x.Value.LeafInput, 3) })
		try(func(x *pb.MapMutation) { x.Value.ExtraData = []byte("other") })
		try(func(x *pb.MapMutation) { x.Value.ExtraData = nil })
		try(func(x *pb.MapMutation) { x.Value.Format = 1 - x.Value.Format })
		try(func(x *pb.MapMutation) { x.Value.LeafInput, x.Value.ExtraData = x.Value.ExtraData, x.Value.LeafInput })
	}
	for _, b := range []string{"", "null", "[]", "{", "{}", "{\"value\":null}", "{\"value\":{}}", "7", "\"x\"", "{\"key\":5}", "{\"value\":7}"} {
		t.jmutval([]byte(b), v.LeafInput)
	}
}

func scenJSON(s *S) {
	var t *Tr
	next := func() {
		if t == nil || t.n > 1500 {
			t = newTrace()
		}
	}
	for i, p := range s.plan {
		next()
		s.jsonDoc(t, planDoc(p), s.thorough || i%9 == 0)
	}
	for i := 0; i < s.q(60, 600); i++ {
		next()
		d := s.randDoc(3, i%2 == 0)
		if i%3 > 0 {
			d = s.randObj(3, i%2 == 0)
		}
		s.jsonDoc(t, d, i%4 == 0)
	}
	for _, b := range []string{"", "{", "{]", "[1,]", "{\"a\":}", "nul", "'x'", "{\"a\":1}}", "{\"a\" 1}", "\"", "[\"***REDACTED*** Hash: zz\"]", "{\"x\":\"***REDACTED*** Hash: abc\"}", "01", "+1", "\x00", "\xff\xfe{}", "1e", "{\"a\":[[[[]]]}"} {
		next()
		src := []byte(b)
		d := parseDocOrBad(src)
		t.jmk("plain", d, func() (*pb.LeafData, error) { return verifiable.CreateJSONLeafData(src) }, src)
		t.jval(src, leafHash(src))
		t.jval(src, nil)
		if !strings.Contains(b, "REDACTED") {
			t.jshed(src)
		}
		t.jmk("redactable", d, func() (*pb.LeafData, error) { return verifiable.CreateRedactableJSONLeafData(src) }, src)
	}
	next()
	g, c := guard(func() (*struct{}, error) {
		_, err := verifiable.CreateJSONLeafDataFromObject(func() {})
		return &struct{}{}, err
	})
	_ = g
	t.emit(Ev{"ev": "mk", "how": "object", "in": docBad, "code": c, "li": "", "fmt": 0, "data": docBad, "same": false})
	// messages
	heads := []*pb.MapTreeHashResponse{{}, {RootHash: leafHash(nil)}, {RootHash: leafHash(nil), MutationLog: &pb.LogTreeHashResponse{}},
		{RootHash: leafHash(nil), MutationLog: &pb.LogTreeHashResponse{TreeSize: 7, RootHash: leafHash([]byte{1})}}}
	for _, h := range heads {
		b, err := json.Marshal(h)
		must(err)
		v := t.jmk("proto", parseDoc(b), func() (*pb.LeafData, error) { return verifiable.CreateJSONLeafDataFromProto(h) }, b)
		t.jval(v.GetExtraData(), v.GetLeafInput())
	}
	// mutations
	opt := func(b []byte) []byte {
		switch s.rng.Intn(5) {
		case 0:
			return nil
		case 1:
			return []byte{}
		}
		return b
	}
	n := 0
	for _, ts := range []string{"", "2017-03-01T00:00:00Z"} {
		for _, act := range []string{"", "set", "delete", "update"} {
			for hv := 0; hv < 5; hv++ {
				for prev := 0; prev < 3; prev++ {
					next()
					n++
					m := &pb.MapMutation{Timestamp: ts, Action: act, Key: opt([]byte{byte(n), 255, 0})}
					switch hv {
					case 1:
						m.Value = &pb.LeafData{}
					case 2:
						m.Value = &pb.LeafData{LeafInput: []byte("v")}
					case 3:
						m.Value = &pb.LeafData{LeafInput: opt(leafHash([]byte("v"))), ExtraData: []byte("{\"a\":1}"), Format: pb.DataFormat_JSON}
					case 4:
						m.Value = &pb.LeafData{ExtraData: opt([]byte{0, 1, 2}), Format: pb.DataFormat(n % 2)}
					}
					if prev > 0 {
						m.PreviousLeafHash = leafHash([]byte{byte(prev)})[:32/prev]
					}
					s.jsonMut(t, m, s.thorough || n%5 == 0)
				}
			}
		}
	}
}
