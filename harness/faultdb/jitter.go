package faultdb

import (
	"runtime"
	"sync/atomic"
	"time"

	"github.com/iden3/go-iden3-core/db"
)

// Jitter is a storage that behaves as the one it wraps, but takes its time, so
// that goroutines meet where they rarely do. Level 0 adds nothing, 1 gives way
// to other goroutines, 2 sleeps now and then.
type Jitter struct {
	S     db.Storage
	Level int
	n     *uint64
}

// NewJitter wraps s; seed decides where it sleeps.
func NewJitter(s db.Storage, level int, seed uint64) db.Storage {
	if level == 0 {
		return s
	}
	return &Jitter{s, level, &seed}
}

// Pauser gives what takes its time the same way.
func Pauser(level int, seed uint64) func() {
	if level == 0 {
		return nil
	}
	return func() { pause(level, &seed, 0) }
}

func pause(level int, n *uint64, kind int) {
	x := atomic.AddUint64(n, 0x9e3779b97f4a7c15)
	x ^= x >> 31
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 29
	if level == 1 {
		for i := x % 4; i > 0; i-- {
			runtime.Gosched()
		}
		return
	}
	// begin, read, commit
	if odds := []uint64{3, 16, 2}[kind]; x%odds == 0 {
		time.Sleep(time.Duration((x>>8)%400) * time.Microsecond)
	} else {
		runtime.Gosched()
	}
}

func (j *Jitter) NewTx() (db.Tx, error) {
	pause(j.Level, j.n, 0)
	t, err := j.S.NewTx()
	if err != nil {
		return nil, err
	}
	pause(j.Level, j.n, 0)
	return &jitterTx{t, j}, nil
}
func (j *Jitter) WithPrefix(p []byte) db.Storage { return &Jitter{j.S.WithPrefix(p), j.Level, j.n} }
func (j *Jitter) Get(k []byte) ([]byte, error) {
	pause(j.Level, j.n, 1)
	v, err := j.S.Get(k)
	pause(j.Level, j.n, 1)
	return v, err
}
func (j *Jitter) List(n int) ([]db.KV, error) {
	pause(j.Level, j.n, 1)
	return j.S.List(n)
}
func (j *Jitter) Close()       { j.S.Close() }
func (j *Jitter) Info() string { return j.S.Info() }
func (j *Jitter) Iterate(f func([]byte, []byte) (bool, error)) error {
	pause(j.Level, j.n, 1)
	return j.S.Iterate(f)
}

type jitterTx struct {
	T db.Tx
	j *Jitter
}

func (t *jitterTx) Get(k []byte) ([]byte, error) {
	pause(t.j.Level, t.j.n, 1)
	return t.T.Get(k)
}
func (t *jitterTx) Put(k, v []byte) { t.T.Put(k, v) }
func (t *jitterTx) Add(o db.Tx)     { t.T.Add(o.(*jitterTx).T) }
func (t *jitterTx) Commit() error {
	pause(t.j.Level, t.j.n, 2)
	err := t.T.Commit()
	pause(t.j.Level, t.j.n, 2)
	return err
}
func (t *jitterTx) Close() { t.T.Close() }
