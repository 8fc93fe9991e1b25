package main

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	vgrpc "github.com/continusec/verifiabledatastructures/server/grpc"
	"github.com/continusec/verifiabledatastructures/server/httprest"
)

// C32: the program that the repository ships, as a process of its own.

func init() { scenarios["C32"] = scenServer }

// prog is a vdbserver.
type prog struct {
	*Tr
	s          *S
	dir        string
	rest, grpc bool
	plain      bool
	certs      bool // names of certificates are given
	accounts   []*pb.ResourceAccount
	restAddr   string
	grpcAddr   string
	mine       []byte
	other      []byte
	cmd        *exec.Cmd
	exited     chan bool
	out        bytes.Buffer
	file       string // empty: demonstration
	twin       *World
	through    map[string]service // by transport, through the door that is open
	stop       []func()
	acc, key   string // may do everything
}

// text is the configuration as an operator would write it.
func (p *prog) text() string {
	s := p.s
	q := func(x string) string { return fmt.Sprintf("%q", x) }
	path := func(n string) string {
		if s.rng.Intn(2) == 0 {
			return n
		}
		return filepath.Join(p.dir, n)
	}
	l := []string{"bolt_db_path: " + q(path(".")), "rest_listen_bind: " + q(p.restAddr), "grpc_listen_bind: " + q(p.grpcAddr),
		"grpc_listen_protocol: " + q([]string{"tcp", "tcp4"}[s.rng.Intn(2)])}
	flag := func(n string, v bool) {
		if v || s.rng.Intn(2) == 0 { // absent is false
			l = append(l, fmt.Sprintf("%s: %v", n, v))
		}
	}
	flag("rest_server", p.rest)
	flag("grpc_server", p.grpc)
	flag("insecure_server_for_testing", p.plain)
	if p.certs && (!p.plain || s.rng.Intn(2) == 0) {
		l = append(l, "server_cert_path: "+q(path("cert.pem")), "server_key_path: "+q(path("key.pem")))
	}
	s.rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	l = append([]string{"# a server", ""}, l...)
	for _, a := range p.accounts {
		l = append(l, "accounts: <", "    id: "+q(a.Id))
		for _, r := range a.Policy {
			l = append(l, "    policy: <", "        api_key: "+q(r.ApiKey), "        name_match: "+q(r.NameMatch))
			for _, f := range r.AllowedFields {
				l = append(l, "        allowed_fields: "+q(f))
			}
			for _, x := range r.Permissions {
				l = append(l, "        permissions: "+x.String())
			}
			l = append(l, "    >")
		}
		l = append(l, ">")
	}
	return strings.Join(l, "\n") + "\n"
}

// start starts the program; false if it is not there a while later.
func (p *prog) start() bool {
	args := []string{}
	if p.file != "" {
		args = append(args, p.file)
	}
	p.out.Reset()
	p.cmd = exec.Command(os.Getenv("VDBSERVER"), args...)
	p.cmd.Dir = p.dir
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.Env = []string{"PATH=" + p.dir, "HOME=" + p.dir, "TMPDIR=" + p.dir}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(p.cmd.Start())
	p.exited = make(chan bool)
	go func(c *exec.Cmd, x chan bool) { c.Wait(); close(x) }(p.cmd, p.exited)
	for _, a := range []struct {
		on   bool
		addr string
	}{{p.rest, p.restAddr}, {p.grpc, p.grpcAddr}} {
		for i := 0; a.on && i < 1500; i++ {
			c, err := net.Dial("tcp", a.addr)
			if err == nil {
				c.Close()
				break
			}
			if p.gone() {
				return false
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	if !p.rest || !p.grpc {
		time.Sleep(200 * time.Millisecond)
	}
	p.connect()
	return !p.gone()
}

func (p *prog) gone() bool {
	select {
	case <-p.exited:
		return true
	default:
		return false
	}
}

func (p *prog) kill() {
	p.cmd.Process.Signal([]os.Signal{syscall.SIGKILL, syscall.SIGKILL, syscall.SIGTERM, syscall.SIGINT}[p.s.rng.Intn(4)])
	select {
	case <-p.exited:
	case <-time.After(2 * time.Second):
		p.cmd.Process.Kill()
		<-p.exited
	}
	p.hangUp()
}

func (p *prog) hangUp() {
	for _, f := range p.stop {
		f()
	}
	p.stop = nil
}

// door is a caller who comes that way.
func (p *prog) door(tr, way string) service {
	cert := p.mine
	if way == "other" {
		cert = p.other
	}
	if tr == "grpc" {
		return dialled((&vgrpc.Client{Address: p.grpcAddr, CertDer: cert, NoGrpcSecurity: way == "plain"}).Dial())
	}
	pool := x509.NewCertPool()
	pool.AppendCertsFromPEM(cert)
	t := &http.Transport{MaxIdleConnsPerHost: 8, TLSClientConfig: &tls.Config{RootCAs: pool}}
	p.stop = append(p.stop, t.CloseIdleConnections)
	scheme := "https"
	if way == "plain" {
		scheme = "http"
	}
	return dialled((&httprest.Client{BaseURL: scheme + "://" + p.restAddr, HTTPClient: &http.Client{Transport: t}}).Dial())
}

func (p *prog) connect() {
	way := "tls"
	if p.plain {
		way = "plain"
	}
	p.through = map[string]service{}
	if p.rest {
		p.through["rest"] = p.door("rest", way)
	}
	if p.grpc {
		p.through["grpc"] = p.door("grpc", way)
	}
}

// any is a client of one of the transports.
func (p *prog) any(rng *rand.Rand) service {
	return p.through[sortedKeys(p.through)[rng.Intn(len(p.through))]]
}

func (p *prog) doors() {
	for _, tr := range []string{"rest", "grpc"} {
		if tr == "grpc" && p.file == "" {
			continue
		}
		for _, way := range []string{"plain", "tls", "other"} {
			a := (&Q{Op: "head", Lt: "log", O: Obj{Acc: p.acc, Name: "obj", Kind: "log", Key: p.key}}).run(p.door(tr, way))
			p.emit(Ev{"ev": "door", "tr": tr, "way": way, "code": a.Code})
		}
	}
}

// ask sends a request to both.
func (p *prog) ask(q *Q, via service) {
	a, b := q.run(via), q.run(p.twin.svc)
	missing := q.Op == "add" && q.Val == nil || q.Op == "set" && q.M.Action != "delete" && q.M.Value == nil
	if missing && b.Code == "PermissionDenied" && a.Code != "OK" {
		return // two errors at once, either will do
	}
	p.emit(Ev{"ev": "kind", "q": q.String(), "a": a.Code, "b": b.Code})
	if a.Code == "OK" || b.Code == "OK" {
		p.same(q.String(), a, b)
	}
}

// all asks everything.
func (p *prog) all(objs []Obj) {
	for _, o := range objs {
		o.Key = p.key
		for _, q := range allQ(o, sizeOf(p.twin.svc, o)) {
			p.ask(q, p.any(p.s.rng))
		}
	}
}

// load has callers write, each to an object of its own, until the program dies.
func (p *prog) load(objs []Obj, round int) {
	type job struct {
		o    Obj
		done []*Q
		open *Q
		bad  string
	}
	var killed atomic.Bool
	var wg sync.WaitGroup
	jobs := make([]*job, len(objs))
	for i, o := range objs {
		o.Key = p.key
		j := &job{o: o}
		jobs[i] = j
		rng := rand.New(rand.NewSource(p.s.rng.Int63()))
		cl := p.any(rng)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 4000; n++ {
				v := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("w%d-%d-%d", i, round, n)), ExtraData: make([]byte, rng.Intn(3)*300)}
				q := &Q{Op: "add", Lt: "log", O: j.o, Val: v}
				if j.o.Kind == "map" {
					q = &Q{Op: "set", O: j.o, M: &pb.MapMutation{Action: "set", Key: []byte([]string{"k", "kk", "k1", "k2"}[rng.Intn(4)]), Value: v}}
					if rng.Intn(5) == 0 {
						q.M.Action, q.M.Value = "delete", nil
					}
				}
				a := q.run(cl)
				if a.Code != "OK" {
					if !killed.Load() {
						j.bad = a.Code
					}
					j.open = q
					return
				}
				j.done = append(j.done, q)
			}
		}()
	}
	time.Sleep(time.Duration(p.s.rng.Intn(60000)) * time.Microsecond)
	killed.Store(true)
	p.kill()
	wg.Wait()
	up := p.start()
	p.started(up)
	if !up {
		return
	}
	for _, j := range jobs {
		if j.bad != "" {
			p.emit(Ev{"ev": "kind", "q": "write", "a": j.bad, "b": "OK"})
		}
		for _, q := range j.done {
			q.run(p.twin.svc)
			p.emit(Ev{"ev": "ack", "o": j.o.id()})
		}
		count("acked", len(j.done))
		before := sizeOf(p.twin.svc, j.o)
		n := sizeOf(p.any(p.s.rng), j.o)
		sent := 0
		if j.open != nil {
			sent = 1
			if n > before {
				j.open.run(p.twin.svc)
				count("kept_unanswered", 1)
			}
		}
		p.emit(Ev{"ev": "found", "o": j.o.id(), "n": n, "sent": sent})
	}
}

func count(k string, n int) {
	statMu.Lock()
	defer statMu.Unlock()
	stats[k] += n
}

func (p *prog) started(up bool) {
	p.emit(Ev{"ev": "start", "conf": Ev{"rest": p.rest, "grpc": p.grpc, "plain": p.plain}, "up": up, "out": clip(p.out.String())})
}

// rules are accounts with rules of all kinds.
func (s *S) rules() []*pb.ResourceAccount {
	all := []pb.Permission{}
	for i := 1; i <= 15; i++ {
		all = append(all, pb.Permission(i))
	}
	rv := []*pb.ResourceAccount{}
	for _, id := range [][]string{{"77", "78"}, {"77", "78", "77"}, {"78", "77", "78", "80"}}[s.rng.Intn(3)] {
		a := &pb.ResourceAccount{Id: id, Policy: []*pb.AccessPolicy{{NameMatch: "*", Permissions: all[:1], AllowedFields: []string{"*"}, ApiKey: "root"}}}
		for _, k := range []string{"some", "some", "other", ""} {
			if s.rng.Intn(3) == 0 {
				continue
			}
			r := &pb.AccessPolicy{NameMatch: []string{"*", "a*", "obj", "o*"}[s.rng.Intn(4)], ApiKey: k}
			for _, f := range []string{"*", "a", "name", "x", "key", "\"q\"\\"} {
				if s.rng.Intn(3) == 0 {
					r.AllowedFields = append(r.AllowedFields, f)
				}
			}
			for _, x := range all[1:] {
				if s.rng.Intn(2) == 0 {
					r.Permissions = append(r.Permissions, x)
				}
			}
			a.Policy = append(a.Policy, r)
		}
		s.rng.Shuffle(len(a.Policy), func(i, j int) { a.Policy[i], a.Policy[j] = a.Policy[j], a.Policy[i] })
		rv = append(rv, a)
	}
	s.rng.Shuffle(len(rv), func(i, j int) { rv[i], rv[j] = rv[j], rv[i] })
	return rv
}

func (s *S) server(t *Tr, i int) {
	p := &prog{Tr: t, s: s, certs: true, acc: "77", key: "root", dir: freshDir(), rest: i%4 != 1, grpc: i%4 != 2, plain: i%2 == 0, accounts: s.rules()}
	if i%8 == 7 {
		p.rest, p.grpc = false, i%16 == 7
	}
	ip := []byte{127, byte(1 + s.rng.Intn(250)), byte(1 + s.rng.Intn(250)), byte(1 + s.rng.Intn(250))}
	p.restAddr = fmt.Sprintf("%s:%d", net.IP(ip), 2000+s.rng.Intn(20000))
	p.grpcAddr = fmt.Sprintf("%s:%d", net.IP(ip), 23000+s.rng.Intn(9000))
	_, _, p.mine = newCert(p.dir, ip...)
	_, _, p.other = newCert(freshDir(), ip...)
	p.file = filepath.Join(p.dir, "vdb.conf")
	must(os.WriteFile(p.file, []byte(p.text()), 0o600))
	p.twin = newWorld(WC{Policy: &policy.Static{Policy: p.accounts}})
	defer p.twin.close()
	keys := []string{"root", "root", "some", "other", "none", ""}
	p.life([]string{"77", "77", "79", "78"}, keys, s.q(3, 6))
}

// life runs the program and kills it a few times.
func (p *prog) life(accs, keys []string, rounds int) {
	s := p.s
	objs, loads := []Obj{}, []Obj{}
	for _, n := range []string{"obj", "a-b"} {
		for _, k := range []string{"log", "map"} {
			objs = append(objs, Obj{Acc: p.acc, Name: n, Kind: k}, Obj{Acc: accs[len(accs)-1], Name: n, Kind: k})
			loads = append(loads, Obj{Acc: p.acc, Name: "load-" + n, Kind: k})
		}
	}
	up := p.start()
	p.started(up)
	defer func() { p.kill() }()
	for r := 0; up && r < rounds; r++ {
		p.doors()
		if len(p.through) == 0 {
			break
		}
		for i := 0; i < s.q(50, 120); i++ {
			o := objs[s.rng.Intn(len(objs))]
			o.Acc = accs[s.rng.Intn(len(accs))]
			x := o
			x.Key = p.key
			o.Key = keys[s.rng.Intn(len(keys))]
			p.ask(s.wideQ(o, max(sizeOf(p.twin.svc, x), 0), "rest"), p.any(s.rng))
		}
		if p.gone() {
			p.started(false)
			return
		}
		if p.file == "" {
			break
		}
		p.load(loads, r)
		if up = !p.gone(); !up {
			break
		}
		p.all(loads)
		p.all(objs)
	}
}

// broken is a server that cannot do what it is configured to do: its certificate is not there or of no use, or the
// configuration cannot be read. Nobody comes in, least of all in plain or by rules that were half read.
func (s *S) broken(t *Tr, i int) {
	p := &prog{Tr: t, s: s, certs: true, acc: "77", key: "root", dir: freshDir(), rest: i%2 == 0, grpc: i%2 == 1, accounts: s.rules()}
	ip := []byte{127, byte(1 + s.rng.Intn(250)), byte(1 + s.rng.Intn(250)), byte(1 + s.rng.Intn(250))}
	p.restAddr, p.grpcAddr = fmt.Sprintf("%s:%d", net.IP(ip), 3001), fmt.Sprintf("%s:%d", net.IP(ip), 3002)
	p.file = filepath.Join(p.dir, "vdb.conf")
	other := freshDir()
	_, _, p.other = newCert(other, ip...)
	p.mine = p.other
	how := i / 2 % 8
	text := ""
	switch how {
	case 0: // no certificate
		text = p.text()
	case 1: // none named
		p.certs = false
		text = p.text()
	case 2: // the key of another
		_, _, p.mine = newCert(p.dir, ip...)
		b, err := os.ReadFile(filepath.Join(other, "key.pem"))
		must(err)
		must(os.WriteFile(filepath.Join(p.dir, "key.pem"), b, 0o600))
		text = p.text()
	case 3: // garbage
		_, _, p.mine = newCert(p.dir, ip...)
		must(os.WriteFile(filepath.Join(p.dir, "cert.pem"), []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"), 0o600))
		text = p.text()
	default:
		p.plain = true
		text = p.text()
		switch how {
		case 4:
			text += "colour: 7\n"
		case 5:
			text += "accounts: <\n    id: \"81\"\n"
		case 6:
			text += "accounts: < id: \"81\" policy: < permissions: PERM_EVERYTHING > >\n"
		case 7:
			text += "rest_server: maybe\n"
		}
	}
	must(os.WriteFile(p.file, []byte(text), 0o600))
	p.rest, p.grpc = false, false
	p.start()
	time.Sleep(300 * time.Millisecond)
	p.started(true)
	p.doors()
	p.kill()
}

// documented is the configuration of README.md.
func (s *S) documented(t *Tr) {
	p := &prog{Tr: t, s: s, certs: true, acc: "1234", key: "secret", dir: freshDir(), rest: true, grpc: true, plain: true}
	ip := net.IP{127, byte(1 + s.rng.Intn(250)), byte(1 + s.rng.Intn(250)), 9}.String()
	p.restAddr, p.grpcAddr = ip+":18092", ip+":18090"
	_, _, p.mine = newCert(freshDir())
	p.other = p.mine
	p.accounts = []*pb.ResourceAccount{{Id: "1234", Policy: []*pb.AccessPolicy{{ApiKey: "secret", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}}}}}
	p.twin = newWorld(WC{Policy: &policy.Static{Policy: p.accounts}})
	defer p.twin.close()
	p.file = filepath.Join(p.dir, "vdb.conf")
	must(os.WriteFile(p.file, []byte(strings.ReplaceAll(`# openssl req -x509 -newkey rsa:4096 -keyout vds-key.pem -out vds-cert.pem -days 3600 -nodes -subj '/CN=localhost' -batch
# server_cert_path: "vds-cert.pem"
# server_key_path: "vds-key.pem"

rest_server: true
rest_listen_bind: "HOST:18092"

grpc_server: true
grpc_listen_bind: "HOST:18090"
grpc_listen_protocol: "tcp4"

insecure_server_for_testing: true

# Bolt DB path:
bolt_db_path: "."

# Accounts supported by this server
accounts: <
    id: "1234"
    policy: <
        api_key: "secret"
        name_match: "*"
        allowed_fields: "*"
        permissions: PERM_ALL_PERMISSIONS
    >
>
`, "HOST", ip)), 0o600))
	p.life([]string{"1234"}, []string{"secret", "secret", "", "Secret"}, 2)
}

// demo is the program without a configuration.
func (s *S) demo(t *Tr) {
	lock, err := net.Listen("unix", "@vds-demo") // one at a time
	if err == nil {
		defer lock.Close()
		var l net.Listener
		if l, err = net.Listen("tcp", ":8092"); err == nil {
			l.Close()
		}
	}
	if err != nil {
		t.emit(Ev{"ev": "start", "conf": Ev{"rest": false, "grpc": false, "plain": false}, "up": true, "out": "port in use"})
		return
	}
	p := &prog{Tr: t, s: s, certs: true, acc: "77", key: "root", dir: freshDir(), rest: true, plain: true, restAddr: "127.0.0.1:8092"}
	_, _, p.mine = newCert(freshDir())
	p.other = p.mine
	p.twin = newWorld(WC{})
	defer p.twin.close()
	p.life([]string{"77", "78", "0012"}, []string{"root", "any", ""}, 1)
}

func scenServer(s *S) {
	var wg sync.WaitGroup
	slots := make(chan bool, 6)
	run := func(f func(*S, *Tr)) {
		c, t := s.fork(), newTrace()
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- true
			f(c, t)
			<-slots
		}()
	}
	run(func(c *S, t *Tr) { c.demo(t) })
	run(func(c *S, t *Tr) { c.documented(t) })
	for i := 0; i < s.q(12, 64); i++ {
		run(func(c *S, t *Tr) { c.server(t, i) })
	}
	for i := 0; i < s.q(16, 32); i++ {
		run(func(c *S, t *Tr) { c.broken(t, i) })
	}
	wg.Wait()
}
