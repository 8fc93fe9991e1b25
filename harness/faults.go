package main

import (
	"context"
	"errors"
	"os"
	"sync"
	"syscall"

	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

var errInjected = errors.New("injected storage failure")

// Faulty passes storage accesses on and makes one of them fail.
type Faulty struct {
	W  verifiable.StorageWriter
	mu sync.Mutex
	// accesses until the failure; negative: none
	left  int
	count int
	fired bool
	kind  string // of the access that failed
	sets  bool   // only what is written counts
	die   bool   // the process stops at the access instead
	after bool   // an access after the failure in the same transaction was seen
}

func newFaulty(w verifiable.StorageWriter) *Faulty { return &Faulty{W: w, left: -1} }

// arm makes the k-th access from now on fail (0 is the next); negative disarms.
func (f *Faulty) arm(k int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.left, f.fired, f.kind, f.count = k, false, "", 0
}

func (f *Faulty) hit(kind string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.count++
	if f.left < 0 || f.sets && kind != "set" && kind != "commit" {
		return nil
	}
	if f.left == 0 && f.die {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
	if f.left == 0 {
		f.left = -1
		f.fired, f.kind = true, kind
		return errInjected
	}
	f.left--
	return nil
}

func (f *Faulty) ExecuteReadOnly(c context.Context, ns []byte, fn func(context.Context, verifiable.KeyReader) error) error {
	if err := f.hit("begin"); err != nil {
		return err
	}
	return f.W.ExecuteReadOnly(c, ns, func(c context.Context, kr verifiable.KeyReader) error {
		return fn(c, &faultyReader{f, kr})
	})
}

func (f *Faulty) ExecuteUpdate(c context.Context, ns []byte, fn func(context.Context, verifiable.KeyWriter) error) error {
	if err := f.hit("begin"); err != nil {
		return err
	}
	return f.W.ExecuteUpdate(c, ns, func(c context.Context, kw verifiable.KeyWriter) error {
		if err := fn(c, &faultyWriter{f, kw}); err != nil {
			return err
		}
		return f.hit("commit")
	})
}

type faultyReader struct {
	f *Faulty
	r verifiable.KeyReader
}

func (r *faultyReader) Get(c context.Context, key []byte, v proto.Message) error {
	if err := r.f.hit("get"); err != nil {
		return err
	}
	return r.r.Get(c, key, v)
}

type faultyWriter struct {
	f *Faulty
	w verifiable.KeyWriter
}

func (r *faultyWriter) Get(c context.Context, key []byte, v proto.Message) error {
	if err := r.f.hit("get"); err != nil {
		return err
	}
	return r.w.Get(c, key, v)
}

func (r *faultyWriter) Set(c context.Context, key []byte, v proto.Message) error {
	if err := r.f.hit("set"); err != nil {
		return err
	}
	return r.w.Set(c, key, v)
}
