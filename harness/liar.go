package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sync/atomic"
	"time"

	gcodes "google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

// liar is a service that answers what it is told to.
type liar struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	onHead  func(*pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error)
	onIncl  func(*pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error)
	onCons  func(*pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error)
	onFetch func(*pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error)
	onMHead func(*pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error)
	onGet   func(*pb.MapGetValueRequest) (*pb.MapGetValueResponse, error)
	onSet   func(*pb.MapSetValueRequest) (*pb.MapSetValueResponse, error)
	onAdd   func(*pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error)
}

var errLiar = status.Error(gcodes.Unavailable, "no answer")

// errKinds are the errors that a service, or what is in between, may give instead of an answer.
var errKinds = []error{
	errLiar, status.Error(gcodes.NotFound, "x"), status.Error(gcodes.InvalidArgument, "x"), status.Error(gcodes.PermissionDenied, "x"), status.Error(gcodes.Internal, "x"),
	status.Error(gcodes.FailedPrecondition, "x"), status.Error(gcodes.Unimplemented, "x"), status.Error(gcodes.OutOfRange, "x"), status.Error(gcodes.DeadlineExceeded, "x"), status.Error(gcodes.Canceled, "x"),
	verifiable.ErrNotFound, verifiable.ErrInvalidRange, verifiable.ErrNotAuthorized, verifiable.ErrInternalError, verifiable.ErrNoSuchKey,
	verifiable.ErrNotReadyYet, verifiable.ErrNilTreeHead, verifiable.ErrInvalidTreeRange, verifiable.ErrNotAllEntriesReturned, verifiable.ErrNotImplemented,
	verifiable.ErrInvalidRequest, verifiable.ErrVerificationFailed, verifiable.ErrInvalidJSON,
	errors.New("x"), context.Canceled, context.DeadlineExceeded, io.EOF,
}

func (s *S) anErr() error { return errKinds[s.rng.Intn(len(errKinds))] }

// failing answers as l does, but for the k-th request it is asked (and all later ones, if lasting), which it answers with an error.
func (l *liar) failing(k int, lasting bool, err error) *liar {
	x, n := *l, 0
	bad := func() bool {
		n++
		return n == k || lasting && n > k
	}
	x.onHead = failSome(bad, err, l.onHead)
	x.onIncl = failSome(bad, err, l.onIncl)
	x.onCons = failSome(bad, err, l.onCons)
	x.onFetch = failSome(bad, err, l.onFetch)
	x.onMHead = failSome(bad, err, l.onMHead)
	x.onGet = failSome(bad, err, l.onGet)
	return &x
}

func failSome[Q, A any](bad func() bool, err error, f func(*Q) (*A, error)) func(*Q) (*A, error) {
	return func(q *Q) (*A, error) {
		if bad() {
			return nil, err
		}
		return answer(f, q)
	}
}

func answer[Q, A any](f func(*Q) (*A, error), q *Q) (*A, error) {
	if f == nil {
		return nil, errLiar
	}
	return f(q)
}

func (l *liar) LogTreeHash(_ context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return answer(l.onHead, q)
}
func (l *liar) LogInclusionProof(_ context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return answer(l.onIncl, q)
}
func (l *liar) LogConsistencyProof(_ context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return answer(l.onCons, q)
}
func (l *liar) LogFetchEntries(_ context.Context, q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return answer(l.onFetch, q)
}
func (l *liar) MapTreeHash(_ context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return answer(l.onMHead, q)
}
func (l *liar) MapGetValue(_ context.Context, q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return answer(l.onGet, q)
}
func (l *liar) MapSetValue(_ context.Context, q *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	return answer(l.onSet, q)
}
func (l *liar) LogAddEntry(_ context.Context, q *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return answer(l.onAdd, q)
}

var errRange = status.Error(gcodes.InvalidArgument, "out of range")

// The answers that a log with these leaf hashes gives.

func trueHead(h [][]byte, size int64) (*pb.LogTreeHashResponse, error) {
	n := int64(len(h))
	if size < 0 || size > n {
		return nil, errRange
	}
	if size == 0 {
		size = n
	}
	return &pb.LogTreeHashResponse{TreeSize: size, RootHash: mth(h[:size])}, nil
}

func trueIncl(h [][]byte, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	n, size := int64(len(h)), q.TreeSize
	if size < 0 || size > n {
		return nil, errRange
	}
	if size == 0 {
		size = n
	}
	i := q.LeafIndex
	if len(q.MtlHash) > 0 {
		i = -1
		for j, x := range h {
			if string(x) == string(q.MtlHash) {
				i = int64(j)
			}
		}
		if i == -1 {
			return nil, status.Error(gcodes.NotFound, "no such entry")
		}
	}
	if i < 0 || i >= size {
		return nil, errRange
	}
	return &pb.LogInclusionProofResponse{LeafIndex: i, TreeSize: size, AuditPath: apath(int(i), h[:size])}, nil
}

func trueCons(h [][]byte, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	n, size := int64(len(h)), q.TreeSize
	if size == 0 {
		size = n
	}
	if q.FromSize < 1 || size < 0 || size > n || q.FromSize >= size {
		return nil, errRange
	}
	return &pb.LogConsistencyProofResponse{FromSize: q.FromSize, TreeSize: size, AuditPath: cproof(int(q.FromSize), h[:size], true)}, nil
}

func trueFetch(es []*pb.LeafData, q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	n, last := int64(len(es)), q.Last
	if last == 0 {
		last = n
	}
	if q.First < 0 || last < 0 || last > n || q.First >= last {
		return nil, errRange
	}
	return &pb.LogFetchEntriesResponse{Values: es[q.First:last]}, nil
}

func hashesOf(es []*pb.LeafData) [][]byte {
	var rv [][]byte
	for _, e := range es {
		rv = append(rv, leafHash(e.GetLeafInput()))
	}
	return rv
}

// truthful gives a liar the answers of a log.
func truthful(h func() [][]byte) *liar {
	return &liar{
		onHead: func(q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) { return trueHead(h(), q.TreeSize) },
		onIncl: func(q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) { return trueIncl(h(), q) },
		onCons: func(q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
			return trueCons(h(), q)
		},
	}
}

func logOf(svc service, lt string) *verifiable.Log {
	a := (&verifiable.Client{Service: svc}).Account(logO.Acc, logO.Key)
	switch lt {
	case "mut":
		return a.VerifiableMap(logO.Name).MutationLog()
	case "head":
		return a.VerifiableMap(logO.Name).TreeHeadLog()
	}
	return a.VerifiableLog(logO.Name)
}

func mapOf(svc service) *verifiable.Map {
	return (&verifiable.Client{Service: svc}).Account(mapO.Acc, mapO.Key).VerifiableMap(mapO.Name)
}

// Calls made in great numbers: guard without a goroutine for each. A watchdog ends the driver when one hangs.

var swiftCalls, swiftOpen atomic.Int64

func init() {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if c := swiftCalls.Load(); c != last || swiftOpen.Load() == 0 {
				last, since = c, time.Now()
			} else if time.Since(since) > 60*time.Second {
				fmt.Fprintln(os.Stderr, "a call does not return")
				os.Exit(4)
			}
		}
	}()
}

// verdict of a call: OK, NIL, FAIL or PANIC
func swift[T any](f func() (*T, error)) (v *T, c string) {
	swiftCalls.Add(1)
	swiftOpen.Add(1)
	defer swiftOpen.Add(-1)
	defer func() {
		if p := recover(); p != nil {
			count("panics", 1)
			fmt.Fprintln(os.Stderr, "panic:", p)
			v, c = nil, "PANIC"
		}
	}()
	v, err := f()
	switch {
	case err != nil:
		return nil, "FAIL"
	case v == nil:
		return nil, "NIL"
	}
	return v, "OK"
}

func swiftErr(f func() error) string {
	_, c := swift(func() (*struct{}, error) { return &struct{}{}, f() })
	return c
}
