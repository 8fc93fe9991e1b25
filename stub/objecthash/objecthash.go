// Package objecthash is a stand-in for github.com/continusec/objecthash, which
// cannot be had in this sandbox. It follows the published objecthash algorithm
// and the JavaScript implementation that ships in the repository
// (assets/static/continusec.js): same tags, same float normalisation, same
// redaction prefix. (Unicode NFC normalisation is left out: no input of ours needs it.)
package objecthash

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
)

const stdPrefix = "***REDACTED*** Hash: "

func h(tag string, b []byte) []byte {
	s := sha256.New()
	s.Write([]byte(tag))
	s.Write(b)
	return s.Sum(nil)
}

func floatNorm(f float64) (string, error) {
	if f == 0 {
		return "+0:", nil
	}
	s := "+"
	if f < 0 {
		s, f = "-", -f
	}
	e := 0
	for f > 1 {
		f /= 2
		e++
	}
	for f <= .5 {
		f *= 2
		e--
	}
	s += fmt.Sprintf("%d:", e)
	for f != 0 {
		if f >= 1 {
			s += "1"
			f--
		} else {
			s += "0"
		}
		if f >= 1 || len(s) >= 1000 {
			return "", errors.New("could not normalize float")
		}
		f *= 2
	}
	return s, nil
}

func hash(o interface{}, prefix string) ([]byte, error) {
	switch v := o.(type) {
	case nil:
		return h("n", nil), nil
	case []interface{}:
		var b []byte
		for _, x := range v {
			y, err := hash(x, prefix)
			if err != nil {
				return nil, err
			}
			b = append(b, y...)
		}
		return h("l", b), nil
	case string:
		if prefix != "" && strings.HasPrefix(v, prefix) {
			return hex.DecodeString(v[len(prefix):])
		}
		return h("u", []byte(v)), nil
	case float64:
		s, err := floatNorm(v)
		if err != nil {
			return nil, err
		}
		return h("f", []byte(s)), nil
	case int:
		return h("i", []byte(fmt.Sprintf("%d", v))), nil
	case int64:
		return h("i", []byte(fmt.Sprintf("%d", v))), nil
	case bool:
		if v {
			return h("b", []byte("1")), nil
		}
		return h("b", []byte("0")), nil
	case map[string]interface{}:
		kh := make([]string, 0, len(v))
		for k, x := range v {
			a, err := hash(k, prefix)
			if err != nil {
				return nil, err
			}
			b, err := hash(x, prefix)
			if err != nil {
				return nil, err
			}
			kh = append(kh, string(a)+string(b))
		}
		sort.Strings(kh)
		return h("d", []byte(strings.Join(kh, ""))), nil
	}
	return nil, fmt.Errorf("unsupported type: %T", o)
}

// ObjectHash hashes an object.
func ObjectHash(o interface{}) ([]byte, error) { return hash(o, "") }

// ObjectHashWithStdRedaction hashes an object, taking redacted strings for what they stand for.
func ObjectHashWithStdRedaction(o interface{}) ([]byte, error) { return hash(o, stdPrefix) }

// CommonJSONHash hashes JSON text.
func CommonJSONHash(b []byte) ([]byte, error) {
	var o interface{}
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	return ObjectHash(o)
}

// Redactable replaces every value in an object by a [nonce, value] pair.
func Redactable(o interface{}) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(v))
		for i, x := range v {
			y, err := Redactable(x)
			if err != nil {
				return nil, err
			}
			rv[i] = y
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{})
		for k, x := range v {
			n := make([]byte, 32)
			if _, err := rand.Read(n); err != nil {
				return nil, err
			}
			y, err := Redactable(x)
			if err != nil {
				return nil, err
			}
			rv[k] = []interface{}{hex.EncodeToString(n), y}
		}
		return rv, nil
	}
	return o, nil
}

// Filtered keeps the top-level fields named in the comma-separated list and replaces the others by their hash.
func Filtered(o interface{}, fields string) (interface{}, error) {
	if fields == "*" {
		return o, nil
	}
	v, ok := o.(map[string]interface{})
	if !ok {
		return nil, errors.New("can only filter objects")
	}
	keep := map[string]bool{}
	for _, f := range strings.Split(fields, ",") {
		keep[strings.TrimSpace(f)] = true
	}
	rv := make(map[string]interface{})
	for k, x := range v {
		if keep[k] {
			rv[k] = x
			continue
		}
		// an already redacted value stays as it is
		if s, ok := x.(string); ok && strings.HasPrefix(s, stdPrefix) {
			rv[k] = x
			continue
		}
		y, err := hash(x, stdPrefix)
		if err != nil {
			return nil, err
		}
		rv[k] = stdPrefix + hex.EncodeToString(y)
	}
	return rv, nil
}

// Unredactable drops redacted values and turns [nonce, value] pairs back into values.
func Unredactable(o interface{}, prefix string) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(v))
		for i, x := range v {
			y, err := Unredactable(x, prefix)
			if err != nil {
				return nil, err
			}
			rv[i] = y
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{})
		for k, x := range v {
			switch y := x.(type) {
			case []interface{}:
				if len(y) != 2 {
					return nil, errors.New("unexpected tuple length")
				}
				z, err := Unredactable(y[1], prefix)
				if err != nil {
					return nil, err
				}
				rv[k] = z
			case string:
				if !strings.HasPrefix(y, prefix) {
					return nil, errors.New("unexpected string")
				}
			default:
				return nil, errors.New("unexpected value")
			}
		}
		return rv, nil
	}
	return o, nil
}

// UnredactableWithStdPrefix is Unredactable with the standard prefix.
func UnredactableWithStdPrefix(o interface{}) (interface{}, error) { return Unredactable(o, stdPrefix) }
