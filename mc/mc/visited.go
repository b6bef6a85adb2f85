package mc

import (
	"os"
	"sync/atomic"
	"syscall"
	"unsafe"
)

// Visited is a table of state signatures shared by all worker processes.  Each
// entry packs 58 bits of signature with the largest remaining budget (6 bits)
// the state was explored with.
type Visited struct {
	tab  []uint64
	mask uint64
}

func OpenVisited(f *os.File, size int) (*Visited, error) {
	b, err := syscall.Mmap(int(f.Fd()), 0, size*8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Visited{tab: unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), size), mask: uint64(size - 1)}, nil
}

// Visit reports whether the state was already explored with at least this
// budget, and whether it is new.
func (v *Visited) Visit(sig uint64, budget int) (seen, fresh bool) {
	key := sig &^ 63
	if key == 0 {
		key = 64
	}
	val := key | uint64(budget+1)&63
	i := (sig * 0x9e3779b97f4a7c15) >> 20 & v.mask
	for n := 0; n < 64; n++ {
		p := &v.tab[i]
		for {
			cur := atomic.LoadUint64(p)
			if cur == 0 {
				if atomic.CompareAndSwapUint64(p, 0, val) {
					return false, true
				}
				continue
			}
			if cur&^63 == key {
				if cur&63 >= val&63 {
					return true, false
				}
				if atomic.CompareAndSwapUint64(p, cur, val) {
					return false, false
				}
				continue
			}
			break
		}
		i = (i + 1) & v.mask
	}
	return false, true // neighbourhood full: explore without remembering
}
