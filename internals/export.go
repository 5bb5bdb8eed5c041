package jettison

// Laid over the package by the checks only (never part of the repository):
// lets a workload bring the package back to the state of a fresh process
// and scribble over memory that the package keeps for itself.

import (
	"sync"
	"sync/atomic"
)

// VerifResetCaches empties all caches of types.
func VerifResetCaches() {
	atomic.StorePointer(&instrCachePtr, nil)
	for _, m := range []*sync.Map{&structInstrCache, &fieldsCache, &emptyFnCache} {
		m.Range(func(k, _ interface{}) bool {
			m.Delete(k)
			return true
		})
	}
}

// VerifPoisonPools overwrites the content of idle pooled buffers.
func VerifPoisonPools(fill byte) int {
	var l []*buffer
	for i := 0; i < 16; i++ {
		v := bufferPool.Get()
		if v == nil {
			break
		}
		buf, ok := v.(*buffer)
		if !ok || buf == nil {
			break
		}
		b := buf.B[:cap(buf.B)]
		for j := range b {
			b[j] = fill
		}
		l = append(l, buf)
	}
	for _, buf := range l {
		bufferPool.Put(buf)
	}
	return len(l)
}
