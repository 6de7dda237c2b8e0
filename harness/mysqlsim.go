package main

import (
	"database/sql"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
)

// mysqlSim is a server that speaks the MySQL protocol on a loopback port and keeps the data in a sqlite
// database, so that the node runs the code that it runs in production: its MySQL driver, its pool of
// connections and the migrations of the migrate library. Data outlives the connections. The limits of
// the column types of MySQL are checked; faults are injected with the hook.
type mysqlSim struct {
	l    net.Listener
	back *sql.DB
	name string

	lock  chan struct{} // held by the session that runs a statement or a transaction
	mu    sync.Mutex
	dbs   map[string]bool
	types map[string]map[string]string // table, column, type
	fault func(query string) fault
	conns map[net.Conn]bool

	statements, sessions, faults int64
}

type fault int

const (
	fNone       fault = iota
	fError            // the statement fails without an effect
	fDropBefore       // the connection breaks before the statement is run
	fDropAfter        // the connection breaks after the statement was run
	fDropRows         // the connection breaks after a part of the rows
	fSlow             // the answer takes a while
)

var simCount int64

func newMysqlSim() *mysqlSim {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &mysqlSim{l: l, lock: make(chan struct{}, 1), dbs: map[string]bool{}, types: map[string]map[string]string{}, conns: map[net.Conn]bool{}}
	s.name = fmt.Sprintf("sim%d", atomic.AddInt64(&simCount, 1))
	s.back, err = sql.Open("sqlite3", "file:"+s.name+"?mode=memory&cache=shared")
	must(err)
	s.back.SetMaxOpenConns(1)
	must(s.back.Ping())
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns[c] = true
			s.mu.Unlock()
			atomic.AddInt64(&s.sessions, 1)
			go s.serve(c)
		}
	}()
	return s
}

func (s *mysqlSim) port() int { return s.l.Addr().(*net.TCPAddr).Port }

func (s *mysqlSim) config() config.DbConfig {
	return config.DbConfig{Host: "127.0.0.1", Port: s.port(), Username: "user", Password: "password", Schema: "dheart"}
}

// open is what a node does when it starts.
func (s *mysqlSim) open() (db.Database, error) {
	cfg := s.config()
	d := db.NewDatabase(&cfg)
	return d, d.Init()
}

func (s *mysqlSim) setFault(f func(query string) fault) {
	s.mu.Lock()
	s.fault = f
	s.mu.Unlock()
}

// dropAll breaks all connections, as a restart of the server does.
func (s *mysqlSim) dropAll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conns {
		c.Close()
	}
}

func (s *mysqlSim) Close() {
	s.l.Close()
	s.dropAll()
	s.back.Close()
}

type mysqlSession struct {
	s     *mysqlSim
	c     net.Conn
	seq   byte
	stmts map[uint32]*mysqlStmt
	next  uint32
	inTx  bool
	db    string
}

type mysqlStmt struct {
	query string
	n     int
	types []byte
	long  map[int][]byte
}

func (x *mysqlSession) read() ([]byte, error) {
	var all []byte
	for {
		var h [4]byte
		if _, err := io.ReadFull(x.c, h[:]); err != nil {
			return nil, err
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		x.seq = h[3] + 1
		b := make([]byte, n)
		if _, err := io.ReadFull(x.c, b); err != nil {
			return nil, err
		}
		all = append(all, b...)
		if n < 0xffffff {
			return all, nil
		}
	}
}

func (x *mysqlSession) packet(buf []byte, b []byte) []byte {
	buf = append(buf, byte(len(b)), byte(len(b)>>8), byte(len(b)>>16), x.seq)
	x.seq++
	return append(buf, b...)
}

func lenInt(b []byte, n uint64) []byte {
	switch {
	case n < 251:
		return append(b, byte(n))
	case n < 1<<16:
		return append(b, 0xfc, byte(n), byte(n>>8))
	case n < 1<<24:
		return append(b, 0xfd, byte(n), byte(n>>8), byte(n>>16))
	}
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], n)
	return append(append(b, 0xfe), l[:]...)
}

func lenStr(b []byte, s string) []byte { return append(lenInt(b, uint64(len(s))), s...) }

func readLen(b []byte) (uint64, []byte) {
	switch b[0] {
	case 0xfc:
		return uint64(b[1]) | uint64(b[2])<<8, b[3:]
	case 0xfd:
		return uint64(b[1]) | uint64(b[2])<<8 | uint64(b[3])<<16, b[4:]
	case 0xfe:
		return binary.LittleEndian.Uint64(b[1:9]), b[9:]
	}
	return uint64(b[0]), b[1:]
}

var simEof = []byte{0xfe, 0, 0, 2, 0}

func simOk(affected, id int64) []byte {
	return append(lenInt(lenInt([]byte{0}, uint64(affected)), uint64(id)), 2, 0, 0, 0)
}

type mysqlErr struct {
	code int
	text string
}

func (e *mysqlErr) Error() string { return e.text }

func simErr(err error) []byte {
	code := 1105
	var me *mysqlErr
	switch {
	case errors.As(err, &me):
		code = me.code
	case strings.Contains(err.Error(), "UNIQUE"):
		code = 1062
	case strings.Contains(err.Error(), "no such table"):
		code = 1146
	case strings.Contains(err.Error(), "syntax"):
		code = 1064
	}
	b := []byte{0xff, byte(code), byte(code >> 8), '#'}
	return append(append(b, "HY000"...), err.Error()...)
}

func column(name string, typ byte) []byte {
	b := lenStr(nil, "def")
	for _, f := range []string{"", "", "", name, ""} {
		b = lenStr(b, f)
	}
	return append(b, 0x0c, 45, 0, 0, 1, 0, 0, typ, 0, 0, 0, 0, 0)
}

func (s *mysqlSim) serve(c net.Conn) {
	x := &mysqlSession{s: s, c: c, stmts: map[uint32]*mysqlStmt{}}
	defer func() {
		c.Close()
		s.mu.Lock()
		delete(s.conns, c)
		s.mu.Unlock()
		if x.inTx {
			s.back.Exec("ROLLBACK")
			<-s.lock
		}
	}()
	hello := append([]byte{10}, "8.0.0-sim\x00"...)
	hello = append(hello, 1, 0, 0, 0)
	hello = append(hello, "12345678\x00"...)
	caps := uint32(1 | 4 | 8 | 512 | 8192 | 32768 | 1<<19)
	hello = append(hello, byte(caps), byte(caps>>8), 45, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	hello = append(hello, make([]byte, 10)...)
	hello = append(hello, "123456789012\x00mysql_native_password\x00"...)
	if _, err := c.Write(x.packet(nil, hello)); err != nil {
		return
	}
	auth, err := x.read()
	if err != nil || len(auth) < 33 {
		return
	}
	flags := binary.LittleEndian.Uint32(auth)
	rest := auth[32:]
	end := strings.IndexByte(string(rest), 0)
	user := string(rest[:end])
	rest = rest[end+1:]
	n, rest := readLen(rest)
	rest = rest[n:]
	if flags&8 != 0 {
		x.db = string(rest[:strings.IndexByte(string(rest), 0)])
	}
	s.mu.Lock()
	known := x.db == "" || s.dbs[x.db]
	s.mu.Unlock()
	switch {
	case user != "user":
		c.Write(x.packet(nil, simErr(&mysqlErr{1045, "Access denied for user " + user})))
		return
	case !known:
		c.Write(x.packet(nil, simErr(&mysqlErr{1049, "Unknown database " + x.db})))
		return
	}
	if _, err := c.Write(x.packet(nil, simOk(0, 0))); err != nil {
		return
	}
	for {
		p, err := x.read()
		if err != nil || len(p) == 0 {
			return
		}
		out, err := x.command(p)
		if len(out) > 0 {
			if _, err := c.Write(out); err != nil {
				return
			}
		}
		if err != nil {
			return
		}
	}
}

var errDrop = errors.New("drop the connection")

func (x *mysqlSession) command(p []byte) ([]byte, error) {
	switch p[0] {
	case 1:
		return nil, io.EOF
	case 2:
		x.db = string(p[1:])
		return x.packet(nil, simOk(0, 0)), nil
	case 14:
		return x.packet(nil, simOk(0, 0)), nil
	case 3:
		return x.run(string(p[1:]), nil, false)
	case 22: // prepare
		x.next++
		q := string(p[1:])
		n := strings.Count(q, "?")
		x.stmts[x.next] = &mysqlStmt{query: q, n: n, long: map[int][]byte{}}
		b := []byte{0, byte(x.next), byte(x.next >> 8), byte(x.next >> 16), byte(x.next >> 24), 0, 0, byte(n), byte(n >> 8), 0, 0, 0}
		out := x.packet(nil, b)
		if n > 0 {
			for i := 0; i < n; i++ {
				out = x.packet(out, column("?", 0xfd))
			}
			out = x.packet(out, simEof)
		}
		return out, nil
	case 24: // long data
		st := x.stmts[binary.LittleEndian.Uint32(p[1:])]
		i := int(binary.LittleEndian.Uint16(p[5:]))
		st.long[i] = append(st.long[i], p[7:]...)
		return nil, nil
	case 25:
		delete(x.stmts, binary.LittleEndian.Uint32(p[1:]))
		return nil, nil
	case 26:
		return x.packet(nil, simOk(0, 0)), nil
	case 23: // execute
		st := x.stmts[binary.LittleEndian.Uint32(p[1:])]
		if st == nil {
			return x.packet(nil, simErr(&mysqlErr{1243, "Unknown prepared statement"})), nil
		}
		args, err := st.args(p[10:])
		if err != nil {
			return x.packet(nil, simErr(err)), nil
		}
		return x.run(st.query, args, true)
	}
	return x.packet(nil, simErr(&mysqlErr{1047, fmt.Sprintf("unknown command %d", p[0])})), nil
}

func (st *mysqlStmt) args(b []byte) ([]interface{}, error) {
	if st.n == 0 {
		return nil, nil
	}
	nulls := b[:(st.n+7)/8]
	b = b[(st.n+7)/8:]
	if b[0] == 1 {
		st.types = append([]byte{}, b[1:1+2*st.n]...)
		b = b[1+2*st.n:]
	} else {
		b = b[1:]
	}
	var args []interface{}
	for i := 0; i < st.n; i++ {
		if l, ok := st.long[i]; ok {
			args = append(args, l)
			continue
		}
		if nulls[i/8]&(1<<uint(i%8)) != 0 {
			args = append(args, nil)
			continue
		}
		switch t := st.types[2*i]; t {
		case 1:
			args = append(args, int64(int8(b[0])))
			b = b[1:]
		case 8:
			args = append(args, int64(binary.LittleEndian.Uint64(b)))
			b = b[8:]
		case 5:
			args = append(args, math.Float64frombits(binary.LittleEndian.Uint64(b)))
			b = b[8:]
		case 0xf6, 0xfc, 0xfd, 0xfe, 0x0f:
			var n uint64
			n, b = readLen(b)
			args = append(args, append([]byte{}, b[:n]...))
			b = b[n:]
		default:
			return nil, fmt.Errorf("parameter type %d", t)
		}
	}
	st.long = map[int][]byte{}
	return args, nil
}

var (
	reCreate = regexp.MustCompile("(?is)^\\s*CREATE\\s+TABLE\\s+(?:IF NOT EXISTS\\s+)?`?(\\w+)`?\\s*\\((.*)\\)")
	reColumn = regexp.MustCompile("(?i)^\\s*`?(\\w+)`?\\s+(VARCHAR\\(\\d+\\)|\\w*BLOB|\\w*TEXT)")
	reInsert = regexp.MustCompile("(?is)^\\s*INSERT\\s+INTO\\s+`?(\\w+)`?\\s*\\(([^)]*)\\)\\s*VALUES")
	reRename = regexp.MustCompile("(?is)^\\s*ALTER\\s+TABLE\\s+`?(\\w+)`?\\s+RENAME\\s+TO\\s+`?(\\w+)`?")
	reCrDb   = regexp.MustCompile("(?is)^\\s*CREATE\\s+DATABASE\\s+IF\\s+NOT\\s+EXISTS\\s+`?([\\w-]+)`?")
	reShow   = regexp.MustCompile("(?is)^\\s*SHOW\\s+TABLES\\s+LIKE\\s+'([^']*)'")
)

// limits applies the sizes of the column types.
func (s *mysqlSim) limits(q string, args []interface{}) error {
	if m := reCreate.FindStringSubmatch(q); m != nil {
		cols := map[string]string{}
		for _, c := range strings.Split(m[2], ",") {
			if cm := reColumn.FindStringSubmatch(c); cm != nil {
				cols[strings.ToLower(cm[1])] = strings.ToUpper(cm[2])
			}
		}
		if s.types[m[1]] == nil {
			s.types[m[1]] = cols
		}
	}
	if m := reRename.FindStringSubmatch(q); m != nil {
		s.types[m[2]] = s.types[m[1]]
	}
	if m := reInsert.FindStringSubmatch(q); m != nil && len(args) > 0 {
		cols := strings.Split(m[2], ",")
		for i, a := range args {
			name := strings.ToLower(strings.Trim(cols[i%len(cols)], " `\n\t"))
			max := 1 << 30
			typ := s.types[m[1]][name]
			switch {
			case strings.HasPrefix(typ, "VARCHAR"):
				fmt.Sscanf(typ, "VARCHAR(%d)", &max)
			case typ == "BLOB" || typ == "TEXT":
				max = 65535
			case typ == "TINYBLOB" || typ == "TINYTEXT":
				max = 255
			}
			if b, ok := a.([]byte); ok {
				n := len(b)
				if strings.HasPrefix(typ, "VARCHAR") {
					n = len([]rune(string(b)))
				}
				if n > max {
					return &mysqlErr{1406, fmt.Sprintf("Data too long for column '%s'", name)}
				}
			}
		}
	}
	return nil
}

func (x *mysqlSession) run(q string, args []interface{}, bin bool) ([]byte, error) {
	s := x.s
	atomic.AddInt64(&s.statements, 1)
	s.mu.Lock()
	hook := s.fault
	s.mu.Unlock()
	f := fNone
	if hook != nil {
		f = hook(q)
	}
	if f != fNone {
		atomic.AddInt64(&s.faults, 1)
	}
	switch f {
	case fError:
		if u := strings.ToUpper(q); x.inTx && (u == "COMMIT" || u == "ROLLBACK") {
			s.back.Exec("ROLLBACK") // a transaction that cannot be committed is gone
			x.inTx = false
			<-s.lock
		}
		return x.packet(nil, simErr(&mysqlErr{1205, "Lock wait timeout exceeded; try restarting transaction"})), nil
	case fDropBefore:
		return nil, errDrop
	case fSlow:
		time.Sleep(50 * time.Millisecond)
	}
	if !x.inTx {
		select {
		case s.lock <- struct{}{}:
		case <-time.After(20 * time.Second):
			return x.packet(nil, simErr(&mysqlErr{1205, "Lock wait timeout exceeded; try restarting transaction"})), nil
		}
		defer func() {
			if !x.inTx {
				<-s.lock
			}
		}()
	}
	out, err := x.exec(q, args, bin, f == fDropRows)
	if f == fDropAfter {
		return nil, errDrop
	}
	return out, err
}

// exec runs a statement with the lock held.
func (x *mysqlSession) exec(q string, args []interface{}, bin, cut bool) ([]byte, error) {
	s := x.s
	up := strings.ToUpper(strings.TrimSpace(strings.TrimRight(strings.TrimSpace(q), ";")))
	one := func(name, v string, num bool) ([]byte, error) {
		typ := byte(0xfd)
		if num {
			typ = 8
		}
		out := x.packet(nil, []byte{1})
		out = x.packet(out, column(name, typ))
		out = x.packet(out, simEof)
		switch {
		case v == "":
		case !bin:
			out = x.packet(out, lenStr(nil, v))
		case num:
			var b [10]byte
			fmt.Sscan(v, &b[2])
			out = x.packet(out, b[:])
		default:
			out = x.packet(out, lenStr([]byte{0, 0}, v))
		}
		return x.packet(out, simEof), nil
	}
	switch {
	case up == "START TRANSACTION" || up == "BEGIN":
		_, err := s.back.Exec("BEGIN")
		if err != nil {
			return x.packet(nil, simErr(err)), nil
		}
		x.inTx = true
		return x.packet(nil, simOk(0, 0)), nil
	case up == "COMMIT" || up == "ROLLBACK":
		if x.inTx {
			_, err := s.back.Exec(up)
			x.inTx = false
			<-s.lock
			if err != nil {
				return x.packet(nil, simErr(err)), nil
			}
			return x.packet(nil, simOk(0, 0)), nil
		}
		return x.packet(nil, simOk(0, 0)), nil
	case strings.HasPrefix(up, "SET "):
		return x.packet(nil, simOk(0, 0)), nil
	case up == "SELECT DATABASE()":
		return one("DATABASE()", x.db, false)
	case strings.HasPrefix(up, "SELECT GET_LOCK"), strings.HasPrefix(up, "SELECT RELEASE_LOCK"):
		return one("lock", "1", true)
	case strings.HasPrefix(up, "SELECT @@MAX_ALLOWED_PACKET"):
		return one("max", "67108864", true)
	}
	if m := reCrDb.FindStringSubmatch(q); m != nil {
		s.mu.Lock()
		s.dbs[m[1]] = true
		s.mu.Unlock()
		return x.packet(nil, simOk(1, 0)), nil
	}
	if x.db == "" {
		return x.packet(nil, simErr(&mysqlErr{1046, "No database selected"})), nil
	}
	if m := reShow.FindStringSubmatch(q); m != nil {
		q, args = "SELECT name FROM sqlite_master WHERE type='table' AND name LIKE ?", []interface{}{m[1]}
		up = "SELECT"
	}
	if err := s.limits(q, args); err != nil {
		return x.packet(nil, simErr(err)), nil
	}
	// Texts arrive as bytes. They are stored as texts unless the column holds bytes, as MySQL converts them.
	vals := make([]interface{}, len(args))
	for i, a := range args {
		vals[i] = a
		if b, ok := a.([]byte); ok && !strings.Contains(s.typeOf(q, i), "BLOB") {
			vals[i] = string(b)
		}
	}
	if !strings.HasPrefix(up, "SELECT") {
		r, err := s.back.Exec(q, vals...)
		if err != nil {
			return x.packet(nil, simErr(err)), nil
		}
		n, _ := r.RowsAffected()
		if strings.HasPrefix(up, "CREATE") || strings.HasPrefix(up, "DROP") || strings.HasPrefix(up, "ALTER") {
			n = 0
		}
		return x.packet(nil, simOk(n, 0)), nil
	}
	rows, err := s.back.Query(q, vals...)
	if err != nil {
		return x.packet(nil, simErr(err)), nil
	}
	defer rows.Close()
	cols, err := rows.Columns()
	if err != nil {
		return x.packet(nil, simErr(err)), nil
	}
	var all [][]sql.NullString
	for rows.Next() {
		r := make([]sql.NullString, len(cols))
		p := make([]interface{}, len(cols))
		for i := range r {
			p[i] = &r[i]
		}
		if err := rows.Scan(p...); err != nil {
			return x.packet(nil, simErr(err)), nil
		}
		all = append(all, r)
	}
	if err := rows.Err(); err != nil {
		return x.packet(nil, simErr(err)), nil
	}
	out := x.packet(nil, lenInt(nil, uint64(len(cols))))
	for _, c := range cols {
		out = x.packet(out, column(c, 0xfd))
	}
	out = x.packet(out, simEof)
	for i, r := range all {
		if cut && i >= len(all)/2 {
			return out, errDrop
		}
		var b []byte
		if bin {
			b = make([]byte, 1+(len(r)+9)/8)
		}
		for j, v := range r {
			switch {
			case !v.Valid && bin:
				b[1+(j+2)/8] |= 1 << uint((j+2)%8)
			case !v.Valid:
				b = append(b, 0xfb)
			default:
				b = lenStr(b, v.String)
			}
		}
		out = x.packet(out, b)
	}
	if cut {
		return out, errDrop
	}
	return x.packet(out, simEof), nil
}

// typeOf is the type of the column of the i-th parameter of an insertion.
func (s *mysqlSim) typeOf(q string, i int) string {
	m := reInsert.FindStringSubmatch(q)
	if m == nil {
		return ""
	}
	cols := strings.Split(m[2], ",")
	return s.types[m[1]][strings.ToLower(strings.Trim(cols[i%len(cols)], " `\n\t"))]
}
