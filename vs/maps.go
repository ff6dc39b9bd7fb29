package vs

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// MapIt iterates over a map in an order decided by the explorer.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	s    *Sched
}

func keyLess(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	case int64:
		return x < b.(int64)
	case int32:
		return x < b.(int32)
	case uint64:
		return x < b.(uint64)
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.Array:
		if va.Type().Elem().Kind() == reflect.Uint8 {
			pa, pb := reflect.New(va.Type()), reflect.New(va.Type())
			pa.Elem().Set(va)
			pb.Elem().Set(vb)
			n := va.Len()
			return bytes.Compare(unsafe.Slice((*byte)(pa.UnsafePointer()), n), unsafe.Slice((*byte)(pb.UnsafePointer()), n)) < 0
		}
	case reflect.String:
		return va.String() < vb.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return va.Uint() < vb.Uint()
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return false
	}
	return fmt.Sprintf("%v", a) < fmt.Sprintf("%v", b)
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	sort.SliceStable(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
}

// MapIter3 starts an iteration; the extra results only carry the types.
func MapIter3[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V) {
	var k K
	var v V
	return MapIter(m), k, v
}

func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m, s: S}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 && (it.s != nil) {
		sortKeys(it.keys)
	}
	return it
}

// Next advances the iteration.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	s := it.s
	for len(it.keys) > 0 {
		// drop entries deleted meanwhile
		live := it.keys[:0]
		for _, x := range it.keys {
			if _, ok := it.m[x]; ok {
				live = append(live, x)
			}
		}
		it.keys = live
		if len(live) == 0 {
			return false
		}
		i := 0
		if s != nil && !s.dead && len(live) > 1 {
			if s.opts.MapFree {
				i = s.choose(len(live), 0)
			} else if s.opts.MapOrder {
				i = s.choose(len(live), 1)
			}
		}
		x := live[i]
		it.keys = append(live[:i], live[i+1:]...)
		if k != nil {
			*k = x
		}
		if v != nil {
			*v = it.m[x]
		}
		return true
	}
	return false
}
