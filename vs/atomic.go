package vs

import "sync/atomic"

// At is a scheduling point after an atomic operation.
func At[T any](v T) T {
	Point()
	return v
}

type AtomicBool struct{ v atomic.Bool }

func (a *AtomicBool) Load() bool                    { Point(); return a.v.Load() }
func (a *AtomicBool) Store(b bool)                  { Point(); a.v.Store(b) }
func (a *AtomicBool) Swap(b bool) bool              { Point(); return a.v.Swap(b) }
func (a *AtomicBool) CompareAndSwap(o, n bool) bool { Point(); return a.v.CompareAndSwap(o, n) }

type AtomicInt32 struct{ v atomic.Int32 }

func (a *AtomicInt32) Load() int32                    { Point(); return a.v.Load() }
func (a *AtomicInt32) Store(b int32)                  { Point(); a.v.Store(b) }
func (a *AtomicInt32) Add(b int32) int32              { Point(); return a.v.Add(b) }
func (a *AtomicInt32) Swap(b int32) int32             { Point(); return a.v.Swap(b) }
func (a *AtomicInt32) CompareAndSwap(o, n int32) bool { Point(); return a.v.CompareAndSwap(o, n) }

type AtomicInt64 struct{ v atomic.Int64 }

func (a *AtomicInt64) Load() int64                    { Point(); return a.v.Load() }
func (a *AtomicInt64) Store(b int64)                  { Point(); a.v.Store(b) }
func (a *AtomicInt64) Add(b int64) int64              { Point(); return a.v.Add(b) }
func (a *AtomicInt64) Swap(b int64) int64             { Point(); return a.v.Swap(b) }
func (a *AtomicInt64) CompareAndSwap(o, n int64) bool { Point(); return a.v.CompareAndSwap(o, n) }

type AtomicUint32 struct{ v atomic.Uint32 }

func (a *AtomicUint32) Load() uint32                    { Point(); return a.v.Load() }
func (a *AtomicUint32) Store(b uint32)                  { Point(); a.v.Store(b) }
func (a *AtomicUint32) Add(b uint32) uint32             { Point(); return a.v.Add(b) }
func (a *AtomicUint32) Swap(b uint32) uint32            { Point(); return a.v.Swap(b) }
func (a *AtomicUint32) CompareAndSwap(o, n uint32) bool { Point(); return a.v.CompareAndSwap(o, n) }

type AtomicUint64 struct{ v atomic.Uint64 }

func (a *AtomicUint64) Load() uint64                    { Point(); return a.v.Load() }
func (a *AtomicUint64) Store(b uint64)                  { Point(); a.v.Store(b) }
func (a *AtomicUint64) Add(b uint64) uint64             { Point(); return a.v.Add(b) }
func (a *AtomicUint64) Swap(b uint64) uint64            { Point(); return a.v.Swap(b) }
func (a *AtomicUint64) CompareAndSwap(o, n uint64) bool { Point(); return a.v.CompareAndSwap(o, n) }

type AtomicValue struct{ v atomic.Value }

func (a *AtomicValue) Load() any                    { Point(); return a.v.Load() }
func (a *AtomicValue) Store(b any)                  { Point(); a.v.Store(b) }
func (a *AtomicValue) Swap(b any) any               { Point(); return a.v.Swap(b) }
func (a *AtomicValue) CompareAndSwap(o, n any) bool { Point(); return a.v.CompareAndSwap(o, n) }

type AtomicPointer[T any] struct{ v atomic.Pointer[T] }

func (a *AtomicPointer[T]) Load() *T                    { Point(); return a.v.Load() }
func (a *AtomicPointer[T]) Store(b *T)                  { Point(); a.v.Store(b) }
func (a *AtomicPointer[T]) Swap(b *T) *T                { Point(); return a.v.Swap(b) }
func (a *AtomicPointer[T]) CompareAndSwap(o, n *T) bool { Point(); return a.v.CompareAndSwap(o, n) }
