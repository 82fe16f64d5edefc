// Package faultdb wraps a storage so that a chosen operation fails, or so that
// the process "crashes" (panics with Crash) before or after it.
package faultdb

import (
	"errors"
	"os"
	"sync"

	"github.com/iden3/go-iden3-core/db"

	"verifharness/vh"
)

// ErrInjected is what a failed operation returns.
var ErrInjected = errors.New("injected storage fault")

// Crash is the value of the panic that stands for a crash.
type Crash struct{}

// Plan decides what happens to the n-th operation (n counts from 1).
type Plan struct {
	mu sync.Mutex
	// N counts operations; Log names them when Trace is set.
	N     int
	Trace bool
	Log   []string
	// FailAt fails that operation (0: none) and, when FailFor > 1, the
	// following ones too.
	FailAt, FailFor int
	// CrashBefore panics before that operation takes effect; CrashAfter after.
	CrashBefore, CrashAfter int
	// Only restricts the faults to one kind of operation ("" for all).
	Only string
	// Fired tells whether a fault happened.
	Fired bool
	// Commits counts commits that took effect.
	Commits int
}

// Reset disarms the plan and starts counting again.
func (p *Plan) Reset() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.N, p.FailAt, p.FailFor, p.CrashBefore, p.CrashAfter, p.Fired, p.Only = 0, 0, 0, 0, 0, false, ""
	p.Log = nil
}

func (p *Plan) step(kind string) (err error, after func()) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.Only != "" && kind != p.Only {
		return nil, func() {}
	}
	p.N++
	if p.Trace {
		p.Log = append(p.Log, kind)
	}
	if p.CrashBefore != 0 && p.N == p.CrashBefore {
		p.Fired = true
		panic(Crash{})
	}
	n := p.FailFor
	if n < 1 {
		n = 1
	}
	if p.FailAt != 0 && p.N >= p.FailAt && p.N < p.FailAt+n {
		p.Fired = true
		return ErrInjected, nil
	}
	if p.CrashAfter != 0 && p.N == p.CrashAfter {
		return nil, func() { p.Fired = true; panic(Crash{}) }
	}
	return nil, func() {}
}

// Storage is the wrapped storage.
type Storage struct {
	S db.Storage
	P *Plan
}

// New wraps s.
func New(s db.Storage) *Storage { return &Storage{s, &Plan{}} }

func (s *Storage) NewTx() (db.Tx, error) {
	err, after := s.P.step("newtx")
	if err != nil {
		return nil, err
	}
	t, err := s.S.NewTx()
	after()
	if err != nil {
		return nil, err
	}
	return &Tx{t, s.P}, nil
}
func (s *Storage) WithPrefix(p []byte) db.Storage { return &Storage{s.S.WithPrefix(p), s.P} }
func (s *Storage) Get(k []byte) ([]byte, error) {
	err, after := s.P.step("get")
	if err != nil {
		return nil, err
	}
	v, err := s.S.Get(k)
	after()
	return v, err
}
func (s *Storage) List(n int) ([]db.KV, error) {
	err, after := s.P.step("list")
	if err != nil {
		return nil, err
	}
	v, err := s.S.List(n)
	after()
	return v, err
}
func (s *Storage) Close()       { s.S.Close() }
func (s *Storage) Info() string { return s.S.Info() }
func (s *Storage) Iterate(f func([]byte, []byte) (bool, error)) error {
	err, after := s.P.step("iterate")
	if err != nil {
		return err
	}
	err = s.S.Iterate(f)
	after()
	return err
}

// Tx is the wrapped transaction.
type Tx struct {
	T db.Tx
	P *Plan
}

func (t *Tx) Get(k []byte) ([]byte, error) {
	err, after := t.P.step("txget")
	if err != nil {
		return nil, err
	}
	v, err := t.T.Get(k)
	after()
	return v, err
}
func (t *Tx) Put(k, v []byte) { t.T.Put(k, v) }
func (t *Tx) Add(o db.Tx)     { t.T.Add(o.(*Tx).T) }
func (t *Tx) Commit() error {
	err, after := t.P.step("commit")
	if err != nil {
		return err
	}
	err = t.T.Commit()
	if err == nil {
		t.P.mu.Lock()
		t.P.Commits++
		t.P.mu.Unlock()
	}
	after()
	return err
}
func (t *Tx) Close() { t.T.Close() }

// Run calls f and tells whether it crashed by plan.
func Run(f func()) (crashed bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(Crash); ok {
				crashed = true
				return
			}
			panic(p)
		}
	}()
	f()
	return false
}

// Box is a storage that can be closed and opened again.
type Box struct {
	Kind   string
	dir    string
	base   db.Storage
	prefix []byte
}

// NewBox makes a storage of a kind: "mem", "memprefix", "level", "levelprefix".
func NewBox(kind string, prefix []byte) *Box {
	b := &Box{Kind: kind}
	if kind == "level" || kind == "levelprefix" {
		d, err := os.MkdirTemp("", "vhdb")
		vh.Must(err)
		b.dir = d
		b.base = openLevel(d)
	} else {
		b.base = db.NewMemoryStorage()
	}
	if kind == "memprefix" || kind == "levelprefix" {
		b.prefix = prefix
	}
	return b
}

func openLevel(d string) db.Storage {
	s, err := db.NewLevelDbStorage(d, false)
	vh.Must(err)
	return s
}

// Base is the storage without the prefix.
func (b *Box) Base() db.Storage { return b.base }

// Storage is the storage to give to the code under test.
func (b *Box) Storage() db.Storage {
	if b.prefix != nil {
		return b.base.WithPrefix(b.prefix)
	}
	return b.base
}

// Reopen closes the database and opens it again.
func (b *Box) Reopen() {
	if b.dir != "" {
		b.base.Close()
		b.base = openLevel(b.dir)
	}
}

// Close drops everything.
func (b *Box) Close() {
	b.base.Close()
	if b.dir != "" {
		_ = os.RemoveAll(b.dir)
	}
}

// Kinds weighs memory storages over the slower on-disk ones.
var Kinds = []string{"mem", "mem", "memprefix", "memprefix", "mem", "memprefix", "level", "levelprefix"}
