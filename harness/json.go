package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/continusec/objecthash"
)

// Doc is a JSON document as the specification writes it (see spec/JsonLeaf.tla).
type Doc []any

const redactedPrefix = "***REDACTED*** Hash: "

var docBad = Doc{"bad"}

func dStr(s string) Doc  { return Doc{"s", hx([]byte(s))} }
func dHash(h []byte) Doc { return Doc{"r", hx(h)} }

// Field of an object.
type Field struct {
	Name string
	D    Doc
}

func dObj(fs ...Field) Doc {
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name < fs[j].Name })
	rv := []any{}
	for _, f := range fs {
		rv = append(rv, []any{hx([]byte(f.Name)), f.D})
	}
	return Doc{"o", rv}
}

func dList(ds ...Doc) Doc {
	rv := []any{}
	for _, d := range ds {
		rv = append(rv, d)
	}
	return Doc{"l", rv}
}

func dNum(f float64) Doc {
	neg := math.Signbit(f)
	f = math.Abs(f)
	if f == 0 {
		return Doc{"f", neg, 0, 0}
	}
	m, e := math.Frexp(f) // f = m * 2^e
	n := int64(m * (1 << 53))
	k := 53 - e
	for n%2 == 0 {
		n /= 2
		k--
	}
	if n >= 1<<29 { // too long for a number of the specification: its binary digits
		return Doc{"g", neg, strconv.FormatInt(n, 2), e}
	}
	return Doc{"f", neg, int(n), k}
}

func (d Doc) fields() []Field {
	rv := []Field{}
	if d[0] != "o" {
		return rv
	}
	for _, f := range d[1].([]any) {
		x := f.([]any)
		n, err := hex.DecodeString(x[0].(string))
		must(err)
		rv = append(rv, Field{string(n), asDoc(x[1])})
	}
	return rv
}

func (d Doc) items() []Doc {
	rv := []Doc{}
	if d[0] != "l" {
		return rv
	}
	for _, f := range d[1].([]any) {
		rv = append(rv, asDoc(f))
	}
	return rv
}

func asDoc(x any) Doc {
	switch v := x.(type) {
	case Doc:
		return v
	case []any:
		return Doc(v)
	}
	panic(fmt.Sprintf("%T", x))
}

// planDoc reads a document generated from the specification.
func planDoc(m json.RawMessage) Doc {
	var v []any
	must(json.Unmarshal(m, &v))
	return Doc(v)
}

func num(x any) float64 {
	switch v := x.(type) {
	case int:
		return float64(v)
	case float64:
		return v
	}
	panic("num")
}

func quoted(rng *rand.Rand, s string) string {
	if rng != nil && rng.Intn(3) == 0 {
		ascii := true
		for _, c := range []byte(s) {
			ascii = ascii && c < 128
		}
		if ascii {
			b := "\""
			for _, c := range []byte(s) {
				b += fmt.Sprintf("\\u%04x", c)
			}
			return b + "\""
		}
	}
	b, err := json.Marshal(s)
	must(err)
	return string(b)
}

// number is the value of a number.
func (d Doc) number() float64 {
	var f float64
	if d[0] == "g" {
		n, err := strconv.ParseInt(d[2].(string), 2, 64)
		must(err)
		f = math.Ldexp(float64(n), int(num(d[3]))-len(d[2].(string)))
	} else {
		f = math.Ldexp(num(d[2]), -int(num(d[3])))
	}
	if d[1].(bool) {
		f = -f
	}
	return f
}

// text writes a document as JSON, with spaces and escapes as the generator likes (none without one).
func (d Doc) text(rng *rand.Rand) string {
	sp := func() string {
		if rng != nil && rng.Intn(6) == 0 {
			return []string{" ", "\n", "\t", "  "}[rng.Intn(4)]
		}
		return ""
	}
	switch d[0] {
	case "s":
		b, err := hex.DecodeString(d[1].(string))
		must(err)
		return quoted(rng, string(b))
	case "r":
		return quoted(nil, redactedPrefix+d[1].(string))
	case "f", "g":
		f := d.number()
		if rng != nil && rng.Intn(3) == 0 {
			return strconv.FormatFloat(f, 'e', -1, 64)
		}
		if math.Abs(f) > 1e25 || (f != 0 && math.Abs(f) < 1e-25) {
			return strconv.FormatFloat(f, 'e', -1, 64)
		}
		return strconv.FormatFloat(f, 'f', -1, 64)
	case "t":
		return "true"
	case "F":
		return "false"
	case "z":
		return "null"
	case "l":
		p := []string{}
		for _, x := range d.items() {
			p = append(p, sp()+x.text(rng)+sp())
		}
		return "[" + sp() + strings.Join(p, ",") + "]"
	case "o":
		p := []string{}
		for _, x := range d.fields() {
			p = append(p, sp()+quoted(rng, x.Name)+sp()+":"+sp()+x.D.text(rng)+sp())
		}
		if rng != nil {
			rng.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		}
		return "{" + sp() + strings.Join(p, ",") + "}"
	}
	panic("doc")
}

func docOf(v any) Doc {
	switch x := v.(type) {
	case nil:
		return Doc{"z"}
	case bool:
		if x {
			return Doc{"t"}
		}
		return Doc{"F"}
	case string:
		if strings.HasPrefix(x, redactedPrefix) {
			h, err := hex.DecodeString(x[len(redactedPrefix):])
			if err == nil {
				return dHash(h)
			}
			return docBad
		}
		return dStr(x)
	case float64:
		return dNum(x)
	case []any:
		ds := []Doc{}
		for _, y := range x {
			z := docOf(y)
			if z[0] == "bad" {
				return docBad
			}
			ds = append(ds, z)
		}
		return dList(ds...)
	case map[string]any:
		fs := []Field{}
		for k, y := range x {
			z := docOf(y)
			if z[0] == "bad" || strings.HasPrefix(k, redactedPrefix) {
				return docBad
			}
			fs = append(fs, Field{k, z})
		}
		return dObj(fs...)
	}
	panic("docOf")
}

// parseDoc reads JSON.
func parseDoc(b []byte) Doc {
	var v any
	if json.Unmarshal(b, &v) != nil {
		return docBad
	}
	return docOf(v)
}

func (d Doc) hash() []byte {
	var v any
	must(json.Unmarshal([]byte(d.text(nil)), &v))
	h, err := objecthash.ObjectHashWithStdRedaction(v)
	must(err)
	return h
}

// redact replaces the named top-level fields by their hashes.
func (d Doc) redact(names map[string]bool) Doc {
	fs := d.fields()
	for i, f := range fs {
		if names[f.Name] && f.D[0] != "r" {
			fs[i].D = dHash(f.D.hash())
		}
	}
	return dObj(fs...)
}

var docNames = []string{"a", "b", "bb", "name", "ssn", "", "é", "a b", "\"", "value", "extra_data", "timestamp", "ü∂"}
var docStrings = []string{"", "x", "hello", "true", "null", "1", "ünï", "***REDACTED***", "a\nb", "\u0000", "<&>", "\\u0041"}

// randDoc makes a document of at most the given depth.
func (s *S) randDoc(depth int, redacted bool) Doc {
	k := s.rng.Intn(9)
	if depth == 0 {
		k = s.rng.Intn(6)
	}
	switch {
	case k == 0 && redacted && s.rng.Intn(2) == 0:
		return dHash(leafHash([]byte{byte(s.rng.Intn(4))}))
	case k <= 1:
		return dStr(docStrings[s.rng.Intn(len(docStrings))])
	case k == 2:
		f := math.Ldexp(float64(s.rng.Intn(1<<uint(1+s.rng.Intn(28)))), s.rng.Intn(40)-30)
		if s.rng.Intn(3) == 0 {
			f = math.Ldexp(float64(s.rng.Int63n(1<<uint(29+s.rng.Intn(25)))), s.rng.Intn(70)-60)
		}
		if s.rng.Intn(10) == 0 {
			f = math.Ldexp(f, s.rng.Intn(300)-150)
		}
		if s.rng.Intn(3) == 0 {
			f = math.Trunc(f)
		}
		if f != 0 && s.rng.Intn(3) == 0 {
			f = -f
		}
		return dNum(f)
	case k == 3:
		return Doc{"t"}
	case k == 4:
		return Doc{"F"}
	case k == 5:
		return Doc{"z"}
	case k == 6:
		ds := []Doc{}
		for i := s.rng.Intn(4); i > 0; i-- {
			ds = append(ds, s.randDoc(depth-1, redacted))
		}
		return dList(ds...)
	}
	return s.randObj(depth, redacted)
}

func (s *S) randObj(depth int, redacted bool) Doc {
	fs := []Field{}
	for _, i := range s.rng.Perm(len(docNames))[:s.rng.Intn(5)] {
		fs = append(fs, Field{docNames[i], s.randDoc(depth-1, redacted)})
	}
	return dObj(fs...)
}
