package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	mbig "math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/batch"
	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	vgrpc "github.com/continusec/verifiabledatastructures/server/grpc"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/storage/badger"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

// World is a running service.
type World struct {
	st   verifiable.StorageWriter
	svc  service   // direct
	cl   service   // through the transport
	base string    // URL of the REST server
	bad  []service // clients that the server does not take, or that do not take it
	stop []func()
}

func (w *World) close() {
	for i := len(w.stop) - 1; i >= 0; i-- {
		w.stop[i]()
	}
}

// WC configures a world: backend memory|bolt|badger|postgres, mutator instant|batch, transport direct|rest|grpc|chain|tlsrest|tlsgrpc.
type WC struct {
	Backend, Mutator, Transport string
	Policy                      verifiable.AuthorizationOracle
	BatchSize, BufferSize       int
	Timeout                     time.Duration
	Dir                         string // reuse this directory for the files of the backend
	Wrap                        func(verifiable.StorageWriter) verifiable.StorageWriter
	WrapMut                     func(verifiable.MutatorService) verifiable.MutatorService
}

var scratch string // removed by the runner

var nDirs int

func freshDir() string {
	traceMu.Lock()
	nDirs++
	n := nDirs
	traceMu.Unlock()
	d := filepath.Join(scratch, fmt.Sprintf("db%d", n))
	must(os.MkdirAll(d, 0755))
	return d
}

func newStorage(backend, dir string) (verifiable.StorageWriter, func()) {
	switch backend {
	case "", "memory":
		return &memory.TransientStorage{}, func() {}
	case "bolt":
		s := &bolt.Storage{Path: dir}
		return s, s.Close
	case "badger":
		s := &badger.Storage{Path: dir}
		return s, s.Close
	case "postgres":
		s, _, c := newPostgres(dir)
		return s, c
	}
	panic("backend " + backend)
}

func newWorld(c WC) *World {
	w := &World{}
	dir := c.Dir
	if dir == "" && c.Backend != "" && c.Backend != "memory" {
		dir = freshDir()
	}
	st, closeSt := newStorage(c.Backend, dir)
	w.stop = append(w.stop, closeSt)
	if c.Wrap != nil {
		st = c.Wrap(st)
	}
	w.st = st
	var mut verifiable.MutatorService = &instant.Mutator{Writer: st}
	if c.Mutator == "batch" {
		var err error
		mut, err = (&batch.Mutator{Writer: st, BatchSize: c.BatchSize, BufferSize: c.BufferSize, Timeout: c.Timeout}).Create()
		must(err)
	}
	if c.WrapMut != nil {
		mut = c.WrapMut(mut)
	}
	pol := c.Policy
	if pol == nil {
		pol = policy.Open
	}
	var err error
	w.svc, err = (&verifiable.Service{AccessPolicy: pol, Mutator: mut, Reader: st}).Create()
	must(err)
	w.cl = w.svc
	switch c.Transport {
	case "", "direct":
	case "rest":
		w.rest()
	case "grpc":
		w.grpc()
	case "tlsrest", "tlsgrpc":
		w.secure(c.Transport == "tlsgrpc")
	case "chain": // REST in front of gRPC
		w.grpc()
		w.rest()
	default:
		panic("transport " + c.Transport)
	}
	return w
}

// beside is another service over the same storage.
func (w *World) beside(writes bool) service {
	x := &verifiable.Service{AccessPolicy: policy.Open, Reader: w.st}
	if writes {
		x.Mutator = &instant.Mutator{Writer: w.st}
	}
	svc, err := x.Create()
	must(err)
	return svc
}

// rest puts REST in front of what there is.
func (w *World) rest() {
	srv := httptest.NewServer(httprest.CreateRESTHandler(w.cl, nil, nil))
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	w.stop = append(w.stop, func() { srv.CloseClientConnections(); srv.Close() })
	w.base = srv.URL
	var err error
	w.cl, err = (&httprest.Client{BaseURL: srv.URL, HTTPClient: &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 16}}}).Dial()
	must(err)
}

func (w *World) grpc() {
	addr := freeAddr()
	go vgrpc.StartServer(&pb.ServerConfig{GrpcListenProtocol: "tcp", GrpcListenBind: addr, InsecureServerForTesting: true}, w.cl)
	awaitAddr(addr)
	w.cl = dialled((&vgrpc.Client{Address: addr, NoGrpcSecurity: true}).Dial())
}

// dialled is a client; every call of one that there is not fails badly.
func dialled(x service, err error) service {
	if err != nil {
		return struct{ service }{}
	}
	return x
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return l.Addr().String()
}

func awaitAddr(addr string) {
	for i := 0; i < 200; i++ {
		cn, err := net.Dial("tcp", addr)
		if err == nil {
			cn.Close()
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// newCert writes a key and a certificate for 127.0.0.1 and returns the certificate.
func newCert(dir string, ip ...byte) (certPath, keyPath string, certPEM []byte) {
	if ip == nil {
		ip = []byte{127, 0, 0, 1}
	}
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: mbig.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "127.0.0.1"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, IPAddresses: []net.IP{net.IP(ip)}}
	c, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	must(err)
	kb, err := x509.MarshalECPrivateKey(k)
	must(err)
	certPEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c})
	certPath, keyPath = filepath.Join(dir, "cert.pem"), filepath.Join(dir, "key.pem")
	must(os.WriteFile(certPath, certPEM, 0o600))
	must(os.WriteFile(keyPath, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600))
	return
}

// secure puts a server with TLS in front, as it is started in production.
func (w *World) secure(isGrpc bool) {
	cert, key, mine := newCert(freshDir())
	_, _, other := newCert(freshDir())
	addr := freeAddr()
	conf := &pb.ServerConfig{GrpcListenProtocol: "tcp", GrpcListenBind: addr, RestListenBind: addr, ServerCertPath: cert, ServerKeyPath: key}
	if isGrpc {
		go vgrpc.StartServer(conf, w.cl)
		awaitAddr(addr)
		for _, c := range []*vgrpc.Client{{Address: addr, CertDer: other}, {Address: addr}, {Address: addr, NoGrpcSecurity: true}} {
			if x, err := c.Dial(); err == nil {
				w.bad = append(w.bad, x)
			}
		}
		w.cl = dialled((&vgrpc.Client{Address: addr, CertDer: mine}).Dial())
		return
	}
	go httprest.StartServer(conf, w.cl)
	awaitAddr(addr)
	dial := func(scheme string, pem []byte) service {
		pool := x509.NewCertPool()
		pool.AppendCertsFromPEM(pem)
		tr := &http.Transport{MaxIdleConnsPerHost: 16, TLSClientConfig: &tls.Config{RootCAs: pool}}
		w.stop = append(w.stop, tr.CloseIdleConnections)
		return dialled((&httprest.Client{BaseURL: scheme + "://" + addr, HTTPClient: &http.Client{Transport: tr}}).Dial())
	}
	w.bad = append(w.bad, dial("https", other), dial("http", mine))
	w.cl = dial("https", mine)
}
