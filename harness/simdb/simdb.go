// Package simdb runs gorm code of several simulated processes on one SQLite file and
// controls when each database step happens, which of them fail and where a process
// dies. It adds the row locks of MySQL (FOR UPDATE, NOWAIT, SKIP LOCKED, and the locks
// taken by UPDATE and DELETE), which SQLite lacks.
//
// A transaction reads committed data until its first write; from then on it holds
// SQLite's single writer slot. Steps take simulated time, chosen per process and step.
package simdb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/migrator"
	"gorm.io/gorm/schema"

	"verif/harness/kit"
)

// Dialector is SQLite with column types the driver knows and locking clauses kept as comments.
type Dialector struct{ sqlite.Dialector }

func (d Dialector) DataTypeOf(f *schema.Field) string {
	t := d.Dialector.DataTypeOf(f)
	if l := strings.ToLower(t); strings.HasPrefix(l, "datetime(") || strings.HasPrefix(l, "timestamp(") {
		t = l[:strings.IndexByte(l, '(')] + l[strings.IndexByte(l, ')')+1:]
	}
	if f.AutoIncrement && f.PrimaryKey && t == "integer" && len(f.Schema.PrimaryFields) == 1 {
		t = "integer /*auto*/" // as in MySQL, keys are not used again; see autoKeys
	}
	return t
}

func (d Dialector) Migrator(db *gorm.DB) gorm.Migrator {
	return sqlite.Migrator{Migrator: migrator.Migrator{Config: migrator.Config{DB: db, Dialector: d, CreateIndexAfterCreateTable: true}}}
}

func (d Dialector) Initialize(db *gorm.DB) error {
	if err := d.Dialector.Initialize(db); err != nil {
		return err
	}
	db.ClauseBuilders["FOR"] = func(c clause.Clause, b clause.Builder) {
		if l, ok := c.Expression.(clause.Locking); ok {
			_, _ = b.WriteString("/*FOR " + l.Strength + " " + l.Options + "*/")
			return
		}
		c.Build(b)
	}
	return nil
}

func config() *gorm.Config { return &gorm.Config{Logger: logger.Discard} }

// Store is one database file, used by one scenario at a time.
type Store struct {
	Schemas *sync.Map // for schema.Parse
	DB      *sql.DB
	tables  []string
	cur     *Sim
}

// NewStore creates the tables of the models. It has to be called outside of a bubble.
func NewStore(models ...any) *Store {
	dir, err := os.MkdirTemp("", "simdb")
	if err != nil {
		kit.Harness("simdb: %v", err)
	}
	dsn := "file:" + filepath.Join(dir, "db") + "?_journal_mode=WAL&_synchronous=OFF&_busy_timeout=0&_loc=UTC"
	db, err := sql.Open("sqlite3", dsn)
	if err != nil {
		kit.Harness("simdb: %v", err)
	}
	db.SetMaxIdleConns(16)
	s := &Store{DB: db, Schemas: &sync.Map{}}
	if len(models) > 0 {
		g, err := gorm.Open(Dialector{sqlite.Dialector{Conn: db}}, config())
		if err != nil {
			kit.Harness("simdb: %v", err)
		}
		if err := g.AutoMigrate(models...); err != nil {
			kit.Harness("simdb: %v", err)
		}
	}
	s.autoKeys()
	s.Scan()
	return s
}

var keyRe = regexp.MustCompile("(`\\w+`) integer /\\*auto\\*/")

// autoKeys recreates the tables whose keys are generated such that SQLite does not use a key twice.
func (s *Store) autoKeys() {
	rows, err := s.DB.Query("SELECT tbl_name, sql FROM sqlite_master WHERE sql IS NOT NULL ORDER BY type DESC")
	if err != nil {
		kit.Harness("simdb: %v", err)
	}
	ddl := map[string][]string{}
	for rows.Next() {
		var n, q string
		if err := rows.Scan(&n, &q); err != nil {
			kit.Harness("simdb: %v", err)
		}
		ddl[n] = append(ddl[n], q)
	}
	_ = rows.Close()
	for n, qs := range ddl {
		m := keyRe.FindStringSubmatch(qs[0])
		if m == nil {
			continue
		}
		q := strings.Replace(strings.Replace(qs[0], m[0], m[1]+" integer PRIMARY KEY AUTOINCREMENT", 1), ",PRIMARY KEY ("+m[1]+")", "", 1)
		s.Exec("DROP TABLE `" + n + "`")
		s.Exec(q)
		for _, q := range qs[1:] {
			s.Exec(q)
		}
	}
}

// Gorm is plain access to the store.
func (s *Store) Gorm() *gorm.DB {
	g, err := gorm.Open(Dialector{sqlite.Dialector{Conn: s.DB}}, config())
	if err != nil {
		kit.Harness("simdb: %v", err)
	}
	return g
}

// Scan lists the tables again.
func (s *Store) Scan() {
	s.tables = nil
	rows, err := s.DB.Query("SELECT name FROM sqlite_master WHERE type='table'")
	if err != nil {
		kit.Harness("simdb: %v", err)
	}
	defer rows.Close()
	for rows.Next() {
		var n string
		if err := rows.Scan(&n); err != nil {
			kit.Harness("simdb: %v", err)
		}
		if n != "sqlite_stat1" {
			s.tables = append(s.tables, n)
		}
	}
}

// Reset empties every table.
func (s *Store) Reset() {
	for _, t := range s.tables {
		s.Exec("DELETE FROM `" + t + "`")
	}
}

func (s *Store) Exec(q string, args ...any) {
	if _, err := s.DB.Exec(q, args...); err != nil {
		kit.Harness("simdb: %s: %v", q, err)
	}
}

// Fault is what goes wrong at a step.
type Fault int

const (
	None        Fault = iota
	ErrBefore         // fails without effect
	ErrAfter          // takes effect but reports an error (a lost reply)
	CrashBefore       // the process dies before it
	CrashAfter        // the process dies right after it took effect
)

var ErrSim = errors.New("Error 2013: Lost connection to MySQL server during query (simulated)")
var errNoWait = errors.New("Error 3572: Statement aborted because lock(s) could not be acquired immediately and NOWAIT is set.")
var errLockWait = errors.New("Error 1205: Lock wait timeout exceeded; try restarting transaction")
var errDeadlock = errors.New("Error 1213: Deadlock found when trying to get lock; try restarting transaction")
var errString = errors.New("Error 1366: Incorrect string value")
var errTooLong = errors.New("Error 1406: Data too long for column")

// Sim is one scenario on a store.
type Sim struct {
	st    *Store
	mu    sync.Mutex
	wake  chan struct{}
	token *Tx
	rows  map[string]*Tx
	all   []*Actor

	// Latency is how long the n-th step of an actor takes (nil: no time).
	Latency func(a *Actor, n int) time.Duration
	// Reply is how long after taking effect the answer of a statement arrives (nil: no time).
	Reply func(a *Actor, n int) time.Duration
	// Fault is what happens to the n-th step of an actor (nil: nothing).
	Fault func(a *Actor, n int, op string) Fault
	Trace func(format string, args ...any)
	// MaxText limits the bytes of a string argument for tables of this name.
	MaxText map[string]int
	Steps   int
	Faults  int // faults that happened
	Waits   int // lock waits
	NoWaits int // statements refused because of NOWAIT
}

// NewSim empties the store.
func NewSim(st *Store) *Sim {
	if st.cur != nil {
		st.cur.abandon()
	}
	st.Reset()
	st.cur = &Sim{st: st, wake: make(chan struct{}), rows: map[string]*Tx{}}
	return st.cur
}

// Actor is a simulated process.
type Actor struct {
	sim  *Sim
	ID   int
	ops  int
	dead bool
	// OnDeath, if set, is called (in a goroutine of its own) when the process dies.
	OnDeath func()
	txs     map[*Tx]bool
}

func (s *Sim) Actor(id int) *Actor {
	a := &Actor{sim: s, ID: id, txs: map[*Tx]bool{}}
	s.mu.Lock()
	s.all = append(s.all, a)
	s.mu.Unlock()
	return a
}

// Gorm opens the actor's database handle.
func (a *Actor) Gorm() *gorm.DB {
	g, err := gorm.Open(Dialector{sqlite.Dialector{Conn: &pool{a}}}, config())
	if err != nil {
		kit.Harness("simdb: %v", err)
	}
	reply := func(*gorm.DB) {
		if a.sim.Reply == nil {
			return
		}
		if d := a.sim.Reply(a, a.Ops()); d > 0 {
			time.Sleep(d)
			a.Check()
		}
	}
	_ = g.Callback().Query().After("gorm:query").Register("sim:reply", reply)
	_ = g.Callback().Create().After("gorm:commit_or_rollback_transaction").Register("sim:reply", reply)
	_ = g.Callback().Update().After("gorm:commit_or_rollback_transaction").Register("sim:reply", reply)
	_ = g.Callback().Delete().After("gorm:commit_or_rollback_transaction").Register("sim:reply", reply)
	return g
}

// Dead tells whether the process died.
func (a *Actor) Dead() bool {
	a.sim.mu.Lock()
	defer a.sim.mu.Unlock()
	return a.dead
}

// Ops is the number of steps taken so far.
func (a *Actor) Ops() int {
	a.sim.mu.Lock()
	defer a.sim.mu.Unlock()
	return a.ops
}

// Kill lets the process die: its transactions are rolled back and each of its goroutines
// ends when it next touches the database or calls Check.
func (a *Actor) Kill() {
	a.sim.mu.Lock()
	defer a.sim.mu.Unlock()
	a.kill()
}

func (a *Actor) kill() {
	if a.dead {
		return
	}
	a.dead = true
	for tx := range a.txs {
		tx.end(false)
	}
	a.sim.broadcast()
	if a.OnDeath != nil {
		go a.OnDeath()
	}
}

// Check ends the calling goroutine if its process is dead.
func (a *Actor) Check() {
	if a.Dead() {
		runtime.Goexit()
	}
}

// abandon ends what a scenario left open.
func (s *Sim) abandon() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, a := range s.all {
		a.dead = true
		for tx := range a.txs {
			_ = tx.finish(false)
		}
	}
}

// Stop kills all actors.
func (s *Sim) Stop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, a := range s.all {
		a.kill()
	}
}

func (s *Sim) broadcast() {
	close(s.wake)
	s.wake = make(chan struct{})
}

// ---- steps ----

type execer interface {
	ExecContext(ctx context.Context, q string, args ...any) (sql.Result, error)
	QueryContext(ctx context.Context, q string, args ...any) (*sql.Rows, error)
}

// step runs one database step of an actor. try is called with the lock held and returns
// errWait if it has to wait for a lock.
var errWait = errors.New("wait")

func (a *Actor) step(ctx context.Context, op string, try func() error, drop func()) error {
	s := a.sim
	s.mu.Lock()
	if a.dead {
		s.mu.Unlock()
		runtime.Goexit()
	}
	n := a.ops
	a.ops++
	s.Steps++
	var lat time.Duration
	if s.Latency != nil {
		lat = s.Latency(a, n)
	}
	s.mu.Unlock()
	if lat > 0 {
		time.Sleep(lat)
	}
	var waited time.Time
	for {
		s.mu.Lock()
		if a.dead {
			s.mu.Unlock()
			runtime.Goexit()
		}
		if ctx != nil && ctx.Err() != nil {
			s.mu.Unlock()
			return ctx.Err()
		}
		f := None
		if s.Fault != nil {
			f = s.Fault(a, n, op)
		}
		switch f {
		case ErrBefore:
			s.Faults++
			s.trace(a, n, op, "fails")
			s.mu.Unlock()
			return ErrSim
		case CrashBefore:
			s.Faults++
			s.trace(a, n, op, "crash before")
			a.kill()
			s.mu.Unlock()
			runtime.Goexit()
		}
		err := try()
		if err == errWait {
			if waited.IsZero() {
				waited = time.Now()
				s.Waits++
			}
			if s.Latency == nil {
				s.mu.Unlock()
				return errLockWait
			}
			ch := s.wake
			s.mu.Unlock()
			tm := time.NewTimer(50*time.Second - time.Since(waited))
			select {
			case <-ch:
				tm.Stop()
			case <-tm.C:
				return errLockWait
			}
			time.Sleep(lat + time.Duration(a.ID+1)*7*time.Nanosecond)
			continue
		}
		s.trace(a, n, op, fmt.Sprint(err))
		switch f {
		case ErrAfter:
			s.Faults++
			s.mu.Unlock()
			if err == nil {
				err = ErrSim
			}
			return err
		case CrashAfter:
			s.Faults++
			if drop != nil {
				drop()
			}
			a.kill()
			s.mu.Unlock()
			runtime.Goexit()
		}
		s.mu.Unlock()
		return err
	}
}

func (s *Sim) trace(a *Actor, n int, op, what string) {
	if s.Trace != nil {
		if len(op) > 160 {
			op = op[:160]
		}
		s.Trace("%s actor %d step %d %s: %s", time.Now().Format("05.000000000"), a.ID, n, op, what)
	}
}

var (
	tableRe = regexp.MustCompile("(?i)(?:FROM|UPDATE|INTO)\\s+[`\"]?(\\w+)[`\"]?")
	lockRe  = regexp.MustCompile(`/\*FOR (\w+) ?([\w ]*)\*/`)
)

func isWrite(q string) bool {
	q = strings.TrimSpace(q)
	if i := strings.IndexAny(q, " \t\n"); i > 0 {
		q = q[:i]
	}
	switch strings.ToUpper(q) {
	case "SELECT", "PRAGMA", "EXPLAIN":
		return false
	}
	return true
}

// rowIDs lists the rows a statement reads or changes, as lock keys.
func (s *Sim) rowIDs(ex execer, q string, args []any) (keys []string, err error) {
	m := tableRe.FindStringSubmatch(q)
	if m == nil {
		return nil, nil
	}
	table := m[1]
	up := strings.ToUpper(q)
	var sel string
	var selArgs []any
	switch {
	case strings.HasPrefix(up, "SELECT"):
		i := strings.Index(up, " FROM ")
		sel, selArgs = "SELECT rowid"+q[i:], args[strings.Count(q[:i], "?"):]
	case strings.HasPrefix(up, "DELETE"):
		i := strings.Index(up, " FROM ")
		sel, selArgs = "SELECT rowid"+q[i:], args
	case strings.HasPrefix(up, "UPDATE"):
		where := ""
		if i := strings.LastIndex(up, " WHERE "); i >= 0 {
			where = q[i:]
		}
		sel = "SELECT rowid FROM `" + table + "`" + where
		selArgs = args[len(args)-strings.Count(where, "?"):]
	default:
		return nil, nil
	}
	if i := strings.Index(strings.ToUpper(sel), " RETURNING "); i >= 0 {
		sel = sel[:i]
	}
	rows, err := ex.QueryContext(context.Background(), sel, selArgs...)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	for rows.Next() {
		var id int64
		if err := rows.Scan(&id); err != nil {
			return nil, err
		}
		keys = append(keys, fmt.Sprintf("%s/%d", table, id))
	}
	return keys, rows.Err()
}

// prepare takes the locks a statement needs; it may rewrite the statement (SKIP LOCKED).
func (s *Sim) prepare(tx *Tx, ex execer, q string, args []any) (string, error) {
	for i, v := range args {
		if t, ok := v.(time.Time); ok {
			args[i] = t.UTC() // as the MySQL driver does: times are stored in one zone
		}
		if str, ok := v.(string); ok {
			if !utf8.ValidString(str) {
				return q, errString
			}
			if s.MaxText != nil {
				if m := tableRe.FindStringSubmatch(q); m != nil && s.MaxText[m[1]] > 0 && len(str) > s.MaxText[m[1]] {
					return q, errTooLong
				}
			}
		}
	}
	lock := lockRe.FindStringSubmatch(q)
	write := isWrite(q)
	if lock == nil && !write {
		return q, nil
	}
	keys, err := s.rowIDs(ex, q, args)
	if err != nil {
		return q, err
	}
	var mine, skipped []string
	for _, k := range keys {
		if o := s.rows[k]; o != nil && o != tx {
			if lock != nil && strings.Contains(lock[2], "NOWAIT") {
				s.NoWaits++
				return q, errNoWait
			}
			if lock != nil && strings.Contains(lock[2], "SKIP") {
				skipped = append(skipped, k[strings.IndexByte(k, '/')+1:])
				continue
			}
			if tx != nil && tx == s.token {
				return q, errDeadlock
			}
			return q, errWait
		}
		mine = append(mine, k)
	}
	if len(skipped) > 0 {
		up := strings.ToUpper(q)
		i := strings.Index(up, " WHERE ")
		j := len(q)
		for _, w := range []string{" GROUP BY ", " ORDER BY ", " LIMIT ", "/*FOR "} {
			if k := strings.LastIndex(up, w); k > i && k < j {
				j = k
			}
		}
		if i < 0 {
			q = q[:j] + " WHERE rowid NOT IN (" + strings.Join(skipped, ",") + ")" + q[j:]
		} else {
			q = q[:i] + " WHERE rowid NOT IN (" + strings.Join(skipped, ",") + ") AND (" + q[i+7:j] + ")" + q[j:]
		}
	}
	if write && s.token != nil && s.token != tx {
		return q, errWait
	}
	if tx != nil {
		for _, k := range mine {
			s.rows[k] = tx
		}
	}
	return q, nil
}

func closeRows(rows *sql.Rows) {
	if rows != nil {
		_ = rows.Close()
	}
}

// ---- the pool and its transactions, as gorm sees them ----

type pool struct{ a *Actor }

func (p *pool) PrepareContext(ctx context.Context, q string) (*sql.Stmt, error) {
	return nil, errors.New("simdb: prepared statements are not supported")
}

func (p *pool) ExecContext(ctx context.Context, q string, args ...any) (res sql.Result, err error) {
	err = p.a.step(ctx, q, func() (err error) {
		if q, err = p.a.sim.prepare(nil, p.a.sim.st.DB, q, args); err == nil {
			res, err = p.a.sim.st.DB.ExecContext(context.Background(), q, args...)
		}
		return err
	}, nil)
	return res, err
}

func (p *pool) QueryContext(ctx context.Context, q string, args ...any) (rows *sql.Rows, err error) {
	err = p.a.step(ctx, q, func() (err error) {
		if q, err = p.a.sim.prepare(nil, p.a.sim.st.DB, q, args); err == nil {
			rows, err = p.a.sim.st.DB.QueryContext(context.Background(), q, args...)
		}
		return err
	}, func() { closeRows(rows) })
	if err != nil && rows != nil {
		_ = rows.Close()
		rows = nil
	}
	return rows, err
}

func (p *pool) QueryRowContext(ctx context.Context, q string, args ...any) *sql.Row {
	return p.a.sim.st.DB.QueryRowContext(context.Background(), q, args...)
}

func (p *pool) BeginTx(ctx context.Context, opts *sql.TxOptions) (gorm.ConnPool, error) {
	s := p.a.sim
	s.mu.Lock()
	if p.a.dead {
		s.mu.Unlock()
		runtime.Goexit()
	}
	if ctx != nil && ctx.Err() != nil {
		s.mu.Unlock()
		return nil, ctx.Err()
	}
	n := p.a.ops
	p.a.ops++
	f := None
	if s.Fault != nil {
		f = s.Fault(p.a, n, "BEGIN")
	}
	switch f {
	case CrashBefore, CrashAfter:
		s.Faults++
		p.a.kill()
		s.mu.Unlock()
		runtime.Goexit()
	case ErrBefore, ErrAfter:
		s.Faults++
		s.mu.Unlock()
		return nil, ErrSim
	}
	tx := &Tx{a: p.a, ctx: ctx}
	p.a.txs[tx] = true
	s.mu.Unlock()
	return tx, nil
}

// Tx is a transaction of an actor.
type Tx struct {
	a     *Actor
	ctx   context.Context
	conn  *sql.Conn // since the first write
	saves []string  // savepoints asked for before
	done  bool
}

func (t *Tx) ex() execer {
	if t.conn != nil {
		return t.conn
	}
	return t.a.sim.st.DB
}

// begin makes the transaction the writer; the caller has checked that the slot is free.
func (t *Tx) begin() error {
	if t.conn != nil {
		return nil
	}
	c, err := t.a.sim.st.DB.Conn(context.Background())
	if err != nil {
		return err
	}
	if _, err := c.ExecContext(context.Background(), "BEGIN IMMEDIATE"); err != nil {
		_ = c.Close()
		return err
	}
	t.conn = c
	t.a.sim.token = t
	for _, sp := range t.saves {
		if _, err := c.ExecContext(context.Background(), "SAVEPOINT "+sp); err != nil {
			return err
		}
	}
	t.saves = nil
	return nil
}

// end finishes the transaction; the lock is held.
func (t *Tx) end(commit bool) error {
	if t.done {
		return sql.ErrTxDone
	}
	defer t.a.sim.broadcast()
	return t.finish(commit)
}

func (t *Tx) finish(commit bool) error {
	t.done = true
	delete(t.a.txs, t)
	var err error
	if t.conn != nil {
		w := "ROLLBACK"
		if commit {
			w = "COMMIT"
		}
		_, err = t.conn.ExecContext(context.Background(), w)
		if err != nil && commit {
			_, _ = t.conn.ExecContext(context.Background(), "ROLLBACK")
		}
		_ = t.conn.Close()
	}
	s := t.a.sim
	if s.token == t {
		s.token = nil
	}
	for k, o := range s.rows {
		if o == t {
			delete(s.rows, k)
		}
	}
	return err
}

func (t *Tx) PrepareContext(ctx context.Context, q string) (*sql.Stmt, error) {
	return nil, errors.New("simdb: prepared statements are not supported")
}

func (t *Tx) savepoint(q string) (handled bool, err error) {
	f := strings.Fields(q)
	if len(f) >= 2 && strings.EqualFold(f[0], "SAVEPOINT") && t.conn == nil {
		t.saves = append(t.saves, f[1])
		return true, nil
	}
	if len(f) >= 3 && strings.EqualFold(f[0], "ROLLBACK") && strings.EqualFold(f[1], "TO") && t.conn == nil {
		name := f[len(f)-1]
		for i := len(t.saves) - 1; i >= 0; i-- {
			if t.saves[i] == name {
				t.saves = t.saves[:i+1]
				return true, nil
			}
		}
		return true, fmt.Errorf("no such savepoint: %s", name)
	}
	return false, nil
}

func (t *Tx) ExecContext(ctx context.Context, q string, args ...any) (res sql.Result, err error) {
	err = t.a.step(ctx, q, func() (err error) {
		if t.done {
			return sql.ErrTxDone
		}
		if ok, err := t.savepoint(q); ok {
			res = driver.RowsAffected(0)
			return err
		}
		if q, err = t.a.sim.prepare(t, t.ex(), q, args); err != nil {
			return err
		}
		if isWrite(q) {
			if err := t.begin(); err != nil {
				return err
			}
		}
		res, err = t.ex().ExecContext(context.Background(), q, args...)
		return err
	}, nil)
	return res, err
}

func (t *Tx) QueryContext(ctx context.Context, q string, args ...any) (rows *sql.Rows, err error) {
	err = t.a.step(ctx, q, func() (err error) {
		if t.done {
			return sql.ErrTxDone
		}
		if q, err = t.a.sim.prepare(t, t.ex(), q, args); err != nil {
			return err
		}
		if isWrite(q) {
			if err := t.begin(); err != nil {
				return err
			}
		}
		rows, err = t.ex().QueryContext(context.Background(), q, args...)
		return err
	}, func() { closeRows(rows) })
	if err != nil && rows != nil {
		_ = rows.Close()
		rows = nil
	}
	return rows, err
}

func (t *Tx) QueryRowContext(ctx context.Context, q string, args ...any) *sql.Row {
	return t.a.sim.st.DB.QueryRowContext(context.Background(), q, args...)
}

func (t *Tx) Commit() error {
	err := t.a.step(t.ctx, "COMMIT", func() error { return t.end(true) }, nil)
	if err != nil {
		t.a.sim.mu.Lock()
		_ = t.end(false)
		t.a.sim.mu.Unlock()
	}
	return err
}

func (t *Tx) Rollback() error {
	t.a.sim.mu.Lock()
	defer t.a.sim.mu.Unlock()
	return t.end(false)
}
