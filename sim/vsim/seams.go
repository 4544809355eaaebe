package vsim

import (
	"cmp"
	"fmt"
	"iter"
	"os"
	"slices"
	"time"

	"github.com/spf13/afero"
)

// FsHook, when set by the harness, is the file system seen by the code under
// test in place of the operating system's.
var FsHook afero.Fs

// NewOsFs replaces afero.NewOsFs in the code under test. The value may outlive
// a run, so it looks up the current file system at every call.
func NewOsFs() afero.Fs { return &OsFs{} }

func curFs() afero.Fs {
	if FsHook != nil {
		return FsHook
	}

	return afero.NewOsFs()
}

// OsFs replaces the type afero.OsFs in the code under test.
type OsFs struct{}

func (OsFs) Create(n string) (afero.File, error)    { return curFs().Create(n) }
func (OsFs) Mkdir(n string, p os.FileMode) error    { return curFs().Mkdir(n, p) }
func (OsFs) MkdirAll(n string, p os.FileMode) error { return curFs().MkdirAll(n, p) }
func (OsFs) Open(n string) (afero.File, error)      { return curFs().Open(n) }
func (OsFs) Remove(n string) error                  { return curFs().Remove(n) }
func (OsFs) RemoveAll(n string) error               { return curFs().RemoveAll(n) }
func (OsFs) Rename(a, b string) error               { return curFs().Rename(a, b) }
func (OsFs) Stat(n string) (os.FileInfo, error)     { return curFs().Stat(n) }
func (OsFs) Name() string                           { return "OsFs" }
func (OsFs) Chmod(n string, m os.FileMode) error    { return curFs().Chmod(n, m) }
func (OsFs) Chown(n string, u, g int) error         { return curFs().Chown(n, u, g) }
func (OsFs) Chtimes(n string, a, m time.Time) error { return curFs().Chtimes(n, a, m) }
func (OsFs) OpenFile(n string, f int, p os.FileMode) (afero.File, error) {
	return curFs().OpenFile(n, f, p)
}

// RangeMap replaces ranging over a map in the code under test: the order is
// fixed by the keys and permuted by the run's seed, so that it is arbitrary
// but repeatable.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortKeys(keys)
		if Active() {
			for i := len(keys) - 1; i > 0; i-- {
				j := PoolPick(i + 1)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		for _, k := range keys {
			if v, ok := m[k]; ok {
				if !yield(k, v) {
					return
				}
			}
		}
	}
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
	case []int:
		slices.Sort(ks)
	case []int64:
		slices.Sort(ks)
	case []uint64:
		slices.Sort(ks)
	default:
		slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b)) })
	}
}

// Send replaces a channel send statement.
func Send[T any](ch chan<- T, v T) {
	if !onTask() {
		ch <- v
		return
	}
	Point()
	for {
		select {
		case ch <- v:
			return
		default:
			Wait()
		}
	}
}

// Recv replaces a channel receive expression.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 replaces a two-valued channel receive.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !onTask() {
		v, ok := <-ch
		return v, ok
	}
	Point()
	for {
		select {
		case v, ok := <-ch:
			return v, ok
		default:
			Wait()
		}
	}
}

// RangeChan replaces ranging over a channel.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// SetFinalizer replaces runtime.SetFinalizer: when, and whether, a finalizer
// runs is up to the collector, so in a simulated run it never does.
func SetFinalizer(obj, finalizer any) { Point() }

// GC replaces runtime.GC.
func GC() { Point() }
