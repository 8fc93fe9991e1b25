package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"net"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/continusec/verifiabledatastructures/storage/postgres"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"github.com/jackc/pgx/v5/pgproto3"
	"github.com/jackc/pgx/v5/pgxpool"
)

// pgdb stands in for a PostgreSQL server: tables of keys and values, transactions that are isolated
// as asked for (read committed or a snapshot), table locks.
type pgdb struct {
	mu     sync.Mutex
	cond   *sync.Cond
	tables map[string]map[string][]byte // committed; never changed in place
	owner  map[string]*pgtx             // exclusive lock
	rowex  map[string]map[*pgtx]bool    // those writing
	l      net.Listener
	alien  atomic.Int64 // statements that are not understood
	conns  []net.Conn
}

type pgtx struct {
	snap   map[string]map[string][]byte // of a repeatable read transaction, from its first statement on
	rr, ro bool
	w      map[string]map[string][]byte // nil: deleted
	failed bool
}

var pgServers = map[string]*pgdb{}
var pgMu sync.Mutex

// newPostgres gives two users of the same database; dir names the database.
func newPostgres(dir string) (verifiable.StorageWriter, verifiable.StorageWriter, func()) {
	pgMu.Lock()
	db := pgServers[dir]
	if db == nil {
		db = newPgdb()
		pgServers[dir] = db
	}
	pgMu.Unlock()
	var cl []func()
	one := func() verifiable.StorageWriter {
		a := db.l.Addr().(*net.TCPAddr)
		pool, err := pgxpool.New(context.Background(), fmt.Sprintf("postgres://u@127.0.0.1:%d/d?sslmode=disable&pool_max_conns=1", a.Port))
		must(err)
		cn, err := pool.Acquire(context.Background())
		must(err)
		cl = append(cl, func() { cn.Release(); pool.Close() })
		return &postgres.Storage{Pool: cn}
	}
	w, w2 := one(), one()
	return w, w2, func() {
		for _, f := range cl {
			f()
		}
	}
}

func newPgdb() *pgdb {
	db := &pgdb{tables: map[string]map[string][]byte{}, owner: map[string]*pgtx{}, rowex: map[string]map[*pgtx]bool{}}
	db.cond = sync.NewCond(&db.mu)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	db.l = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go db.serve(c)
		}
	}()
	return db
}

type pgconn struct {
	db    *pgdb
	b     *pgproto3.Backend
	tx    *pgtx
	stmts map[string]string
	bound string
	args  [][]byte
	fmt   int16
}

func (c *pgconn) ready() {
	st := byte('I')
	if c.tx != nil {
		st = 'T'
		if c.tx.failed {
			st = 'E'
		}
	}
	c.b.Send(&pgproto3.ReadyForQuery{TxStatus: st})
}

func (c *pgconn) fail(code, msg string) {
	if c.tx != nil {
		c.tx.failed = true
	}
	c.b.Send(&pgproto3.ErrorResponse{Severity: "ERROR", Code: code, Message: msg})
}

func (db *pgdb) serve(cn net.Conn) {
	defer cn.Close()
	c := &pgconn{db: db, b: pgproto3.NewBackend(cn, cn), stmts: map[string]string{}}
	defer func() { c.end(false) }()
	for {
		m, err := c.b.ReceiveStartupMessage()
		if err != nil {
			return
		}
		if _, ok := m.(*pgproto3.StartupMessage); ok {
			break
		}
		cn.Write([]byte("N"))
	}
	c.b.Send(&pgproto3.AuthenticationOk{})
	for k, v := range map[string]string{"client_encoding": "UTF8", "standard_conforming_strings": "on", "server_version": "16.0", "TimeZone": "UTC", "integer_datetimes": "on"} {
		c.b.Send(&pgproto3.ParameterStatus{Name: k, Value: v})
	}
	c.b.Send(&pgproto3.BackendKeyData{ProcessID: 1, SecretKey: 1})
	c.ready()
	if c.b.Flush() != nil {
		return
	}
	skip := false // after an error, until Sync
	for {
		m, err := c.b.Receive()
		if err != nil {
			return
		}
		if _, ok := m.(*pgproto3.Sync); skip && !ok {
			continue
		}
		switch m := m.(type) {
		case *pgproto3.Query:
			c.run(m.String, nil, true)
			c.ready()
			c.b.Flush()
		case *pgproto3.Parse:
			c.stmts[m.Name] = m.Query
			if c.tx != nil && c.tx.failed {
				c.fail("25P02", "current transaction is aborted")
				skip = true
				break
			}
			c.b.Send(&pgproto3.ParseComplete{})
		case *pgproto3.Describe:
			q := c.bound
			if m.ObjectType == 'S' {
				q = c.stmts[m.Name]
				var ps []uint32
				for i := 1; strings.Contains(q, fmt.Sprintf("$%d", i)); i++ {
					ps = append(ps, 17)
				}
				c.b.Send(&pgproto3.ParameterDescription{ParameterOIDs: ps})
			}
			if reSelect.MatchString(q) {
				c.b.Send(&pgproto3.RowDescription{Fields: []pgproto3.FieldDescription{{Name: []byte("value"), DataTypeOID: 17, DataTypeSize: -1, TypeModifier: -1, Format: c.fmt}}})
			} else {
				c.b.Send(&pgproto3.NoData{})
			}
		case *pgproto3.Bind:
			c.bound, c.args, c.fmt = c.stmts[m.PreparedStatement], nil, 0
			if len(m.ResultFormatCodes) > 0 {
				c.fmt = m.ResultFormatCodes[0]
			}
			for i, p := range m.Parameters {
				f := int16(0)
				if len(m.ParameterFormatCodes) == 1 {
					f = m.ParameterFormatCodes[0]
				} else if i < len(m.ParameterFormatCodes) {
					f = m.ParameterFormatCodes[i]
				}
				if p != nil {
					p = append([]byte{}, p...)
				}
				if f == 0 && p != nil {
					x, err := hex.DecodeString(strings.TrimPrefix(string(p), "\\x"))
					must(err)
					p = x
				}
				c.args = append(c.args, p)
			}
			c.b.Send(&pgproto3.BindComplete{})
		case *pgproto3.Execute:
			skip = !c.run(c.bound, c.args, false)
		case *pgproto3.Close:
			c.b.Send(&pgproto3.CloseComplete{})
		case *pgproto3.Sync:
			skip = false
			c.ready()
			c.b.Flush()
		case *pgproto3.Flush:
			c.b.Flush()
		case *pgproto3.Terminate:
			return
		default:
			db.alien.Add(1)
			return
		}
	}
}

var (
	reName   = `\s+"?([a-z0-9_]+)"?\s*`
	reSelect = regexp.MustCompile(`(?is)^\s*SELECT\s+value\s+FROM` + reName + `WHERE\s+key\s*=\s*\$1\s*;?\s*$`)
	reInsert = regexp.MustCompile(`(?is)^\s*INSERT\s+INTO` + reName + `\(\s*key\s*,\s*value\s*\)\s*VALUES\s*\(\s*\$1\s*,\s*\$2\s*\)\s*ON\s+CONFLICT\s*\(\s*key\s*\)\s*DO\s+UPDATE\s+SET\s+value\s*=\s*(\$2|EXCLUDED\.value)\s*;?\s*$`)
	reIgnore = regexp.MustCompile(`(?is)^\s*INSERT\s+INTO` + reName + `\(\s*key\s*,\s*value\s*\)\s*VALUES\s*\(\s*\$1\s*,\s*\$2\s*\)\s*ON\s+CONFLICT\s*(\(\s*key\s*\))?\s*DO\s+NOTHING\s*;?\s*$`)
	reUpdate = regexp.MustCompile(`(?is)^\s*UPDATE` + reName + `SET\s+value\s*=\s*\$2\s+WHERE\s+key\s*=\s*\$1\s*;?\s*$`)
	reDelete = regexp.MustCompile(`(?is)^\s*DELETE\s+FROM` + reName + `WHERE\s+key\s*=\s*\$1\s*;?\s*$`)
	reCreate = regexp.MustCompile(`(?is)^\s*CREATE\s+TABLE\s+IF\s+NOT\s+EXISTS` + reName + `\(`)
	reLock   = regexp.MustCompile(`(?is)^\s*LOCK\s+(?:TABLE\s+)?(?:ONLY\s+)?"?([a-z0-9_]+)"?(?:\s+IN\s+(ACCESS EXCLUSIVE|EXCLUSIVE|SHARE ROW EXCLUSIVE)\s+MODE)?\s*;?\s*$`)
	reBegin  = regexp.MustCompile(`(?is)^\s*(BEGIN|START TRANSACTION)\b(.*)$`)
)

// run executes one statement; it says whether it succeeded.
func (c *pgconn) run(q string, args [][]byte, simple bool) bool {
	tag := func(s string) bool { c.b.Send(&pgproto3.CommandComplete{CommandTag: []byte(s)}); return true }
	word := strings.ToLower(strings.Trim(strings.TrimSpace(q), ";"))
	if m := reBegin.FindStringSubmatch(q); m != nil {
		if c.tx != nil {
			c.b.Send(&pgproto3.NoticeResponse{Severity: "WARNING", Code: "25001", Message: "there is already a transaction in progress"})
			return tag("BEGIN")
		}
		o := strings.ToLower(m[2])
		c.tx = &pgtx{w: map[string]map[string][]byte{}, rr: strings.Contains(o, "repeatable read") || strings.Contains(o, "serializable"), ro: strings.Contains(o, "read only")}
		return tag("BEGIN")
	}
	switch word {
	case "commit", "end", "commit transaction":
		if c.tx == nil {
			c.b.Send(&pgproto3.NoticeResponse{Severity: "WARNING", Code: "25P01", Message: "there is no transaction in progress"})
			return tag("COMMIT")
		}
		if c.end(!c.tx.failed) {
			return tag("COMMIT")
		}
		return tag("ROLLBACK")
	case "rollback", "abort", "rollback transaction":
		if c.tx != nil {
			c.end(false)
		}
		return tag("ROLLBACK")
	case "":
		c.b.Send(&pgproto3.EmptyQueryResponse{})
		return true
	}
	if c.tx != nil && c.tx.failed {
		c.fail("25P02", "current transaction is aborted")
		return false
	}
	tx := c.tx
	auto := tx == nil
	if auto { // by itself
		c.tx = &pgtx{w: map[string]map[string][]byte{}}
		tx = c.tx
		defer func() { c.end(!tx.failed) }()
	}
	db := c.db
	db.mu.Lock()
	defer db.mu.Unlock()
	see := func(t string) (map[string][]byte, bool) {
		if tx.rr && tx.snap == nil {
			tx.snap = map[string]map[string][]byte{}
			for k, v := range db.tables {
				tx.snap[k] = v
			}
		}
		src := db.tables
		if tx.rr {
			src = tx.snap
		}
		_, exists := db.tables[t]
		return src[t], exists
	}
	writable := func(t string) bool {
		if tx.ro {
			c.fail("25006", "cannot execute in a read-only transaction")
			return false
		}
		if _, ok := see(t); !ok {
			c.fail("42P01", "relation does not exist")
			return false
		}
		for db.owner[t] != nil && db.owner[t] != tx {
			db.cond.Wait()
		}
		if db.rowex[t] == nil {
			db.rowex[t] = map[*pgtx]bool{}
		}
		db.rowex[t][tx] = true
		if tx.w[t] == nil {
			tx.w[t] = map[string][]byte{}
		}
		return true
	}
	cur := func(t, k string) ([]byte, bool) {
		if v, ok := tx.w[t][k]; ok {
			return v, v != nil
		}
		tb, _ := see(t)
		v, ok := tb[k]
		return v, ok
	}
	nn := func(b []byte) []byte {
		if b == nil {
			return []byte{}
		}
		return b
	}
	if m := reSelect.FindStringSubmatch(q); m != nil && len(args) == 1 {
		if _, ok := see(m[1]); !ok {
			c.fail("42P01", "relation does not exist")
			return false
		}
		if v, ok := cur(m[1], string(args[0])); ok {
			if c.fmt == 0 {
				v = []byte("\\x" + hex.EncodeToString(v))
			}
			c.b.Send(&pgproto3.DataRow{Values: [][]byte{v}})
			return tag("SELECT 1")
		}
		return tag("SELECT 0")
	}
	if m := reInsert.FindStringSubmatch(q); m != nil && len(args) == 2 {
		if !writable(m[1]) {
			return false
		}
		tx.w[m[1]][string(args[0])] = nn(args[1])
		return tag("INSERT 0 1")
	}
	if m := reIgnore.FindStringSubmatch(q); m != nil && len(args) == 2 {
		if !writable(m[1]) {
			return false
		}
		if _, ok := cur(m[1], string(args[0])); ok {
			return tag("INSERT 0 0")
		}
		tx.w[m[1]][string(args[0])] = nn(args[1])
		return tag("INSERT 0 1")
	}
	if m := reUpdate.FindStringSubmatch(q); m != nil && len(args) == 2 {
		if !writable(m[1]) {
			return false
		}
		if _, ok := cur(m[1], string(args[0])); !ok {
			return tag("UPDATE 0")
		}
		tx.w[m[1]][string(args[0])] = nn(args[1])
		return tag("UPDATE 1")
	}
	if m := reDelete.FindStringSubmatch(q); m != nil && len(args) == 1 {
		if !writable(m[1]) {
			return false
		}
		_, ok := cur(m[1], string(args[0]))
		tx.w[m[1]][string(args[0])] = nil
		if ok {
			return tag("DELETE 1")
		}
		return tag("DELETE 0")
	}
	if m := reCreate.FindStringSubmatch(q); m != nil {
		// (visible to all at once, which is good enough)
		if tx.ro {
			c.fail("25006", "cannot execute in a read-only transaction")
			return false
		}
		if _, ok := db.tables[m[1]]; !ok {
			db.tables[m[1]] = map[string][]byte{}
		}
		return tag("CREATE TABLE")
	}
	if m := reLock.FindStringSubmatch(q); m != nil {
		t := m[1]
		if auto {
			c.fail("25P01", "LOCK TABLE can only be used in transaction blocks")
			return false
		}
		if _, ok := db.tables[t]; !ok {
			c.fail("42P01", "relation does not exist")
			return false
		}
		others := func() bool {
			for x := range db.rowex[t] {
				if x != tx {
					return true
				}
			}
			return false
		}
		for (db.owner[t] != nil && db.owner[t] != tx) || others() {
			db.cond.Wait()
		}
		db.owner[t] = tx
		return tag("LOCK TABLE")
	}
	db.alien.Add(1)
	c.fail("42601", "not understood: "+q)
	return false
}

// end finishes the transaction; it says whether it was committed.
func (c *pgconn) end(commit bool) bool {
	tx := c.tx
	c.tx = nil
	if tx == nil {
		return false
	}
	db := c.db
	db.mu.Lock()
	defer db.mu.Unlock()
	if commit {
		for t, w := range tx.w {
			n := map[string][]byte{}
			for k, v := range db.tables[t] {
				n[k] = v
			}
			for k, v := range w {
				if v == nil {
					delete(n, k)
				} else {
					n[k] = v
				}
			}
			db.tables[t] = n
		}
	}
	for t := range db.owner {
		if db.owner[t] == tx {
			delete(db.owner, t)
		}
	}
	for t := range db.rowex {
		delete(db.rowex[t], tx)
	}
	db.cond.Broadcast()
	return commit
}
