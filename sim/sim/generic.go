package sim

import (
	"cmp"
	"fmt"
	"iter"
	"runtime/debug"
	"slices"
	"unsafe"
)

func stack() []byte { return debug.Stack() }

// Generic entry points are instantiated (and instrumented) in the program's packages, so they touch
// nothing of the simulator's state themselves.

func chanPtr[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func SendTo[T any](ch chan<- T) func(T) {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	return func(v T) { chanSend(p, cap(ch), ch, v) }
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if ch != nil && len(ch) > 0 { // a channel fed by code outside the simulation
		v, ok := <-ch
		return v, ok
	}
	v, ok := chanRecv(p, cap(ch), ch)
	return Cast[T](v), ok
}

// Cast converts a received value, nil standing for the zero value.
func Cast[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// CastOf is Cast for the element type of a channel.
func CastOf[T any](ch <-chan T, v any) T { return Cast[T](v) }

func Close[T any](ch chan<- T) {
	chanClose(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)
}

func ChanLen[T any](ch <-chan T) int {
	return chanLen(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch) + len(ch)
}

func ChanLenS[T any](ch chan<- T) int {
	return chanLen(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch) + len(ch)
}

func ChanSeq[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

func CaseRecv[T any](ch <-chan T) SelCase {
	return SelCase{p: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch), keep: ch}
}

func CaseSend[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase {
		return SelCase{p: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch), keep: ch, send: true, v: v}
	}
}

// MapSeq iterates over a map in an order decided by the run.
func MapSeq[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortAny(keys)
		n := len(keys)
		for i := 0; i < n; i++ {
			if j := mapPick(n - i); j > 0 {
				keys[i], keys[i+j] = keys[i+j], keys[i]
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func sortAny[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []int:
		slices.Sort(ks)
	case []string:
		slices.Sort(ks)
	case []float64:
		slices.Sort(ks)
	default:
		slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b)) })
	}
}

func mapPick(n int) int {
	r := R
	if r == nil || r.O.MapSeed == 0 {
		return 0
	}
	return r.mapr.Intn(n)
}

// MapsKeys, MapsValues and MapsAll stand in for package maps.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range MapSeq(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range MapSeq(m) {
			if !yield(v) {
				return
			}
		}
	}
}
